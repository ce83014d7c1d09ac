// expect: E0277
pub struct NotCollectable(dumpster::unsync::Gc<u8>);
#[derive(dumpster::Collectable)]
pub enum E {
    A(u8),
    B { b: NotCollectable }, //~
    C(
        NotCollectable, //~
    ),
}
fn main() {}
