//! Entry points of the analysis: every public operation of the library, called the way a user of
//! the library calls it. The analyser starts from these functions only, so that it depends on the
//! public API and on nothing inside the library.
#![allow(dead_code, unexpected_cfgs, deprecated, clippy::all)]
#![cfg_attr(target_arch = "spirv", no_std)]
pub mod codecs;
pub mod models;
pub mod derived;
pub mod helpers;
pub mod pointers;
#[cfg(not(target_arch = "spirv"))]
pub mod slabs;
#[cfg(target_arch = "spirv")]
#[path = "slabs_spirv.rs"]
pub mod slabs;
#[cfg(feature = "alloc")]
pub mod alloc;
#[cfg(any(pass_all, pass_one))]
mod pass;
#[cfg(any(fail_all, fail_one))]
mod fail;
