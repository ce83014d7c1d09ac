// expect: E0277
#[derive(dumpster::Collectable)]
pub struct S {
    a: std::rc::Rc<str>,
    b: std::rc::Rc<dumpster::unsync::Gc<u8>>, //~
}
fn main() {}
