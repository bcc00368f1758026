#![allow(clippy::all)]
pub mod ctx;
pub mod props;
pub mod refs;
/// paths the included source files of the crate name
pub use anothertls::{crypto, hash, net, rand, utils};
