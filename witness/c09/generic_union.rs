// expect: nocode
#[derive(dumpster::Collectable)] //~
#[repr(C)]
pub union U<T: Copy> {
    a: T,
    b: u16,
}
fn main() {}
