#[path = "../src/all.rs"]
pub mod all;
