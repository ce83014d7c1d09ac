// expect: E0200
use dumpster::{Collectable, Visitor};
struct A;
struct B;
unsafe impl Collectable for A { fn accept<V: Visitor>(&self, _: &mut V) -> Result<(), ()> { Ok(()) } }
impl Collectable for B { fn accept<V: Visitor>(&self, _: &mut V) -> Result<(), ()> { Ok(()) } } //~
fn main() { let _ = (A, B); }
