// expect: E0277
use dumpster::sync::Gc;
struct NotCollectable;
fn main() {
    let _ = Gc::new(1u8);
    let _ = Gc::new(NotCollectable); //~
    let _ = NotCollectable;
}
