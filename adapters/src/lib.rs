//! Entry functions of the static analysis.  Each entry states one property of /repo's crate over
//! abstract inputs; nothing in this crate is ever run.
#![allow(unused, dead_code, non_snake_case, clippy::all)]
pub mod rt;
#[macro_use]
pub mod ix;
#[macro_use]
pub mod p;
