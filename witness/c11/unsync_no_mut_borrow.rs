// expect: E0596
use dumpster::unsync::Gc;
fn main() {
    let mut g = Gc::new(vec![1u8]);
    g.push(2); //~
    g = Gc::new(vec![1]);
    let _ = g.len();
}
