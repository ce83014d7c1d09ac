// expect: E0277
use dumpster::unsync::Gc;
use std::sync::Mutex;
static S: Mutex<Option<Gc<u8>>> = Mutex::new(None); //~
fn main() { let _ = Mutex::new(None::<Gc<u8>>); }
