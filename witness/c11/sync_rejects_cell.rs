// expect: E0277
use dumpster::sync::Gc;
use std::cell::RefCell;
fn main() {
    let _ = Gc::new(1u8);
    let _ = Gc::new(RefCell::new(1u8)); //~
    let _ = RefCell::new(1u8);
}
