// expect: E0277
use dumpster::{sync, unsync, Collectable};
#[derive(Collectable)]
struct A { x: std::sync::Mutex<Option<unsync::Gc<A>>> }
fn main() {
    let a = A { x: std::sync::Mutex::new(None) };
    let _ = sync::Gc::new(a); //~
    let _ = sync::Gc::new(1u8); let _ = unsync::Gc::new(A { x: std::sync::Mutex::new(None) });
}
