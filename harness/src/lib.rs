#![allow(deprecated, clippy::all)]
mod api;
mod mk;
mod rd;
#[cfg(any(feature = "c19", feature = "c20", feature = "c21"))]
mod bl;
include!("table.rs");
