// expect: E0277
use dumpster::unsync::Gc;
fn need<T: Copy>(_: &T) {}
fn main() {
    need(&1u8);
    let g = Gc::new(1u8);
    need(&g); //~
    let _ = g;
}
