#[allow(unused_imports)]
use vx::gen::{self, P};
#[path = "../../facet/src/rt.rs"]
mod rt;
mod rd;
mod ser;
include!("list.rs");
