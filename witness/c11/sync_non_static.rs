// expect: E0597
use dumpster::{sync::Gc, Collectable, Visitor};
struct S<'a>(&'a u8);
unsafe impl<'a> Collectable for S<'a> {
    fn accept<V: Visitor>(&self, _: &mut V) -> Result<(), ()> { let _ = self.0; Ok(()) }
}
static X: u8 = 3;
fn main() {
    let x = 1u8;
    let _g = Gc::new(S(&x)); //~
    let _ = x;
    let _g = Gc::new(S(&X));
}
