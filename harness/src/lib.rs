//! Instantiations of the public API of bm, bm-le and bm-le-derive over opaque
//! stand-ins.  Never executed: it only gives the compiler concrete roots, so that
//! every call below resolves to exactly one function body.
#![allow(non_snake_case, dead_code, unused)]
#[macro_use] extern crate bm_le_derive;

pub mod opaque;
pub mod models;
mod core_roots;
mod le_roots;
mod fixtures;
