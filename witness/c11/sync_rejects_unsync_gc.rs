// expect: E0277
use dumpster::{sync, unsync};
fn main() {
    let u = unsync::Gc::new(1u8);
    let _ = sync::Gc::new(1u8);
    let _ = sync::Gc::new(u.clone()); //~
    let _ = u;
}
