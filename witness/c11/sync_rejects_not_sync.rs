// expect: E0277
use dumpster::{sync::Gc, Collectable, Visitor};
struct S(std::cell::Cell<u8>);
unsafe impl Collectable for S {
    fn accept<V: Visitor>(&self, _: &mut V) -> Result<(), ()> { let _ = self.0.get(); Ok(()) }
}
fn main() {
    fn f(s: S) {
        let _ = Gc::new(s); //~
    }
    let _ = f; let _ = Gc::new(1u8);
}
