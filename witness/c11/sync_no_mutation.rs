// expect: E0594
use dumpster::sync::Gc;
fn main() {
    let mut g = Gc::new(1u8);
    *g = 2; //~
    g = Gc::new(3);
    let _ = *g;
}
