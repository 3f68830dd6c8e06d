//! Instantiations of the serialised forms (serde, parity-codec) over opaque stand-ins.
//! Never executed: it only gives the compiler concrete roots.
#![allow(non_snake_case, dead_code, unused)]

pub mod opaque;
mod wire_roots;
