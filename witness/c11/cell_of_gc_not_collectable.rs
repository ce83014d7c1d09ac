// expect: E0277
use dumpster::{unsync::Gc, Collectable};
use std::cell::Cell;
fn need<T: Collectable>() {}
fn main() {
    need::<Cell<u8>>();
    need::<Cell<Option<Gc<u8>>>>(); //~
}
