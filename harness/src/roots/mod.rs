//! Specifications; every function r_* is analysed on its own
pub mod attr;
pub mod enc;
pub mod dec;
pub mod frames;
pub mod encfr;
pub mod lzw;
pub mod steps;
pub mod encst;
pub mod misc;
