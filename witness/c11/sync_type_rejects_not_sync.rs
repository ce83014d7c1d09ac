// expect: E0277
use dumpster::{sync::Gc, Collectable, Visitor};
struct S(std::cell::Cell<u8>);
unsafe impl Collectable for S {
    fn accept<V: Visitor>(&self, _: &mut V) -> Result<(), ()> { let _ = self.0.get(); Ok(()) }
}
#[allow(dead_code)]
struct Holder {
    a: Gc<u8>,
    b: Gc<S>, //~
}
fn main() { let _ = S(std::cell::Cell::new(1)); }
