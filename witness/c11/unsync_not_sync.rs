// expect: E0277
use dumpster::unsync::Gc;
fn need<T: Sync>(_: &T) {}
fn main() {
    let g = Gc::new(1u8);
    need(&g); //~
    let _ = need::<u8>;
    let _ = g;
}
