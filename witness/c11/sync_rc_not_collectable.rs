// expect: E0277
use dumpster::sync::Gc;
fn need<T: dumpster::Collectable>() {}
fn main() {
    need::<Box<Gc<u8>>>();
    need::<std::sync::Arc<Gc<u8>>>(); //~
}
