include!("all.rs");
