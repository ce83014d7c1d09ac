// expect: E0277
use dumpster::sync::Gc;
use std::sync::Mutex;
fn need<T: Send + Sync>(_: &T) {}
fn main() {
    need(&Gc::new(Mutex::new(1u8)));
    need(&Gc::new(vec![Gc::new(1u8)]));
    need(&std::rc::Rc::new(1u8)); //~
}
