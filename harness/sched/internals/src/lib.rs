//! parcom-internals, compiled from /repo over the scheduled `std`.
#![allow(warnings)]
extern crate sstd as std;
#[path = "/repo/crates/parcom-internals/src/lib.rs"]
mod it;
pub use it::*;
