// expect: E0277
#[derive(dumpster::Collectable)]
pub struct S {
    a: u8,
    b: *const dumpster::unsync::Gc<u8>, //~
}
fn main() {}
