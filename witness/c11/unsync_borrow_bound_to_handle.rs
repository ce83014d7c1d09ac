// expect: E0505
use dumpster::unsync::Gc;
use std::borrow::Borrow;
fn main() {
    let g = Gc::new(1u8);
    let r: &u8 = g.borrow();
    drop(g); //~
    let _ = *r;
}
