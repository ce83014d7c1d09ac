// expect: E0616
use dumpster::unsync::Gc;
fn main() {
    let g = Gc::new(1u8);
    let _ = &g.ptr; //~
    let _ = g;
}
