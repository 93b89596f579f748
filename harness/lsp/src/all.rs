mod edit;
mod pos;
#[allow(unused_imports)]
use vx::gen::{self, P};
include!("list.rs");
