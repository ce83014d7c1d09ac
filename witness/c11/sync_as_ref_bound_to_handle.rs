// expect: E0505
use dumpster::sync::Gc;
fn main() {
    let g = Gc::new(1u8);
    let r: &u8 = g.as_ref();
    drop(g); //~
    let _ = *r;
}
