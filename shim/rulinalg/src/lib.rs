//! Stand-in for rulinalg 0.4.2.
//!
//! rulinalg is a git dependency of rusty-machine and cannot be fetched in this
//! sandbox.  This crate offers the same public names with the documented
//! semantics, implemented as plainly as possible; it is the environment the
//! rusty-machine sources are executed in, not the thing under test.
#![allow(clippy::all)]

#[macro_use]
pub mod macros;
pub mod error;
pub mod matrix;
pub mod norm;
pub mod utils;
pub mod vector;
pub mod convert;
pub mod ulp { pub trait Ulp {} }

pub use macros::*;
