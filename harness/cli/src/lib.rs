#![allow(dead_code)]
include!("all.rs");
