#[allow(unused_imports)]
use vx::gen::{self, P};
mod tok;
mod ev;
mod refp;
mod docm;
mod fmt;
mod wr;
mod cst;
include!("list.rs");
