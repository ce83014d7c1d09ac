// expect: E0505
use dumpster::unsync::Gc;
fn main() {
    let g = Gc::new(1u8);
    let r = &*g;
    drop(g); //~
    let _ = *r;
}
