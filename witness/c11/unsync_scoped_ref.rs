// expect: E0277
use dumpster::unsync::Gc;
fn main() {
    let g = Gc::new(1u8);
    std::thread::scope(|s| {
        let r = &g;
        s.spawn(move || drop(Gc::clone(r))); //~
        let _ = (s, r);
    });
}
