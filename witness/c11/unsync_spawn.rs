// expect: E0277
use dumpster::unsync::Gc;
fn main() {
    let g = Gc::new(1u8);
    std::thread::spawn(move || drop(g)); //~
}
