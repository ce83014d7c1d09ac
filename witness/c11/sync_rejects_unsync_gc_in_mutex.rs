// expect: E0277
use dumpster::{sync, unsync};
use std::sync::Mutex;
fn main() {
    let u = unsync::Gc::new(1u8);
    let _ = sync::Gc::new(Mutex::new(Some(u.clone()))); //~
    let _ = u;
    let _ = sync::Gc::new(Mutex::new(Some(1u8)));
}
