// expect: E0277
pub struct NotCollectable(dumpster::unsync::Gc<u8>);
#[derive(dumpster::Collectable)]
pub struct S(
    u8,
    NotCollectable, //~
    dumpster::unsync::Gc<u8>,
);
fn main() {}
