// expect: E0277
use dumpster::{sync::Gc, Collectable, Visitor};
use std::sync::MutexGuard;
struct S(MutexGuard<'static, u8>);
unsafe impl Collectable for S {
    fn accept<V: Visitor>(&self, _: &mut V) -> Result<(), ()> { let _ = &self.0; Ok(()) }
}
fn main() {
    fn f(s: S) {
        let _ = Gc::new(s); //~
    }
    let _ = f; let _ = Gc::new(1u8);
}
