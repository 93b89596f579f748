#[path = "/repo/crates/styx-cli/src/main.rs"]
mod cli;
mod conv;
mod diff;
#[allow(unused_imports)]
use vx::r#gen as gn;
use vx::r#gen::P;
include!("list.rs");
