// expect: E0277
use dumpster::unsync::{default_collect_condition, CollectInfo};
fn need<T: Default>() {}
fn main() {
    let _: fn(&CollectInfo) -> bool = default_collect_condition;
    need::<u8>();
    need::<CollectInfo>(); //~
}
