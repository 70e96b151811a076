//! Harness: specifications written against gift's public API.
//!
//! Never executed; only its MIR is analysed.
#![allow(clippy::all)]
pub mod ai;
pub mod io;
pub mod models;
pub mod mon;
pub mod encmon;
pub mod fmon;
pub mod smon;
pub mod tmon;
pub mod roots;
