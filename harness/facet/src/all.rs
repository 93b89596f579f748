#[allow(unused_imports)]
use vx::gen::{self, P};
mod rt;
mod sch;
mod sv;
include!("list.rs");
