// expect: E0597
use dumpster::unsync::Gc;
static X: u8 = 3;
fn main() {
    let x = 1u8;
    let _g = Gc::new(&x); //~
    let _ = x;
    let _g = Gc::new(&X);
}
