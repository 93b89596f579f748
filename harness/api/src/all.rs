#[allow(unused_imports)]
use vx::gen::{self, P};
#[path = "/repo/crates/styx-ffi/src/lib.rs"]
mod ffi;
mod api;
mod emb;
include!("list.rs");
