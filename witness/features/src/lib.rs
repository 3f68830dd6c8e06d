//! What a program may rely on in every feature combination of bm and bm-le.
//! Never executed: it only has to type-check under each combination.
#![no_std]
#![allow(dead_code, unused)]
extern crate alloc;
use alloc::vec::Vec;

use bm_le::{CompatibleConstruct, FromTree, IntoTree, MaxVec, Partialable, Value};
use generic_array::GenericArray;
use typenum::{U3, U8};

fn encodes<T: IntoTree>() {}
fn decodes<T: FromTree>() {}

fn kinds() {
    encodes::<(u64, bool, Vec<u8>, MaxVec<u16, U8>, Option<u32>, [u8; 3])>();
    decodes::<(u64, bool, Vec<u8>, MaxVec<u16, U8>, Option<u32>)>();
    encodes::<bm_le::Compact<GenericArray<u64, U3>>>();
    decodes::<bm_le::Compact<GenericArray<u64, U3>>>();
    encodes::<bm_le::Compact<MaxVec<bool, U3>>>();
    decodes::<bm_le::Compact<MaxVec<bool, U3>>>();
}

#[cfg(feature = "derive")]
mod derived {
    use super::*;

    #[derive(bm_le::IntoTree, bm_le::FromTree)]
    pub struct Plain {
        pub a: u64,
        pub b: (u8, bool),
        #[bm(compact)]
        pub c: MaxVec<u16, U8>,
    }

    #[derive(bm_le::Partialable)]
    pub struct Parts {
        pub a: u64,
        pub b: u8,
    }

    #[derive(bm_le::IntoTree, bm_le::FromTree)]
    pub enum Choice {
        A,
        B(u64, bool),
        C { x: u8 },
    }

    fn uses() {
        encodes::<Plain>();
        decodes::<Plain>();
        encodes::<Choice>();
        decodes::<Choice>();
    }
}

#[cfg(feature = "with-serde")]
mod with_serde {
    use super::*;
    fn both<T: serde::Serialize + serde::de::DeserializeOwned>() {}
    fn uses() {
        both::<Value>();
        both::<bm_le::Compact<u64>>();
        both::<bm::CompactValue<Value>>();
        both::<MaxVec<u16, U8>>();
    }
}

#[cfg(feature = "with-codec")]
mod with_codec {
    use super::*;
    fn both<T: parity_codec::Encode + parity_codec::Decode>() {}
    fn uses() {
        both::<Value>();
        both::<bm::CompactValue<Value>>();
        both::<MaxVec<u16, U8>>();
    }
}
