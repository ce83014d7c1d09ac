// expect: E0277
pub struct NotCollectable(dumpster::unsync::Gc<u8>);
#[derive(dumpster::Collectable)]
pub struct S<T>(T);
fn need<T: dumpster::Collectable>() {}
fn main() {
    need::<S<u8>>();
    need::<S<NotCollectable>>(); //~
}
