// expect: nocode
#[derive(dumpster::Collectable)] //~
#[repr(C)]
pub union U {
    a: u8,
    b: u16,
}
fn main() {}
