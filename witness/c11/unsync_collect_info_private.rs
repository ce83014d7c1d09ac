// expect: E0451
use dumpster::unsync::{default_collect_condition, CollectInfo};
fn main() {
    let _: fn(&CollectInfo) -> bool = default_collect_condition;
    let _ = CollectInfo { _private: () }; //~
}
