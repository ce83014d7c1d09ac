// expect: E0308
use dumpster::sync::{set_collect_condition, CollectInfo};
fn ok(_: &CollectInfo) -> bool { false }
fn main() {
    let n = std::env::args().count();
    set_collect_condition(ok);
    set_collect_condition(move |_: &CollectInfo| n > 3); //~
    let _ = n;
}
