// expect: E0277
pub struct NotCollectable(dumpster::unsync::Gc<u8>);
#[derive(dumpster::Collectable)]
pub struct S {
    a: u8,
    b: NotCollectable, //~
}
fn main() {}
