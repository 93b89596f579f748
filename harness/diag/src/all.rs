mod de;
mod err;
#[allow(unused_imports)]
use vx::gen::{self, P};
include!("list.rs");
