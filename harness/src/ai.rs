//! Intrinsics interpreted by the analyser
#![allow(unused_variables, clippy::empty_loop)]
use std::io;

#[inline(never)]
pub fn any_u8() -> u8 { loop {} }
#[inline(never)]
pub fn any_u16() -> u16 { loop {} }
#[inline(never)]
pub fn any_u32() -> u32 { loop {} }
#[inline(never)]
pub fn any_usize() -> usize { loop {} }
#[inline(never)]
pub fn any_bool() -> bool { loop {} }
/// Any byte vector
#[inline(never)]
pub fn any_bytes() -> Vec<u8> { loop {} }
/// Any value of a type
#[inline(never)]
pub fn any_val<T>() -> T { loop {} }
/// Assume a condition
#[inline(never)]
pub fn assume(c: bool) { loop {} }
/// Condition which must hold
#[inline(never)]
pub fn check(id: &'static str, c: bool) { loop {} }
/// Place which must be reachable
#[inline(never)]
pub fn reach(id: &'static str) { loop {} }
/// Case distinction
#[inline(never)]
pub fn split(c: bool) { loop {} }
/// Any io::Error which is not Interrupted
#[inline(never)]
pub fn io_error(tag: u32) -> io::Error { loop {} }
/// Interrupted io::Error
#[inline(never)]
pub fn io_interrupted() -> io::Error { loop {} }
/// Tag of io::Error
#[inline(never)]
pub fn io_tag(e: &io::Error) -> u32 { loop {} }
/// Bytes decompressed since the last image data block started
#[inline(never)]
pub fn decoded() -> Vec<u8> { loop {} }
/// From here, take the loop count of an application extension for any function
/// of its data
#[inline(never)]
pub fn abstract_loop_count() { loop {} }
/// From here, analyse the LZW code itself
#[inline(never)]
pub fn exact_lzw() { loop {} }
/// Start recording what is formatted
#[inline(never)]
pub fn show_start() { loop {} }
/// Exactly the display text of an error was formatted
#[inline(never)]
pub fn shown_error(e: &dyn std::error::Error) -> bool { loop {} }
/// Exactly one name (with its fields) was formatted
#[inline(never)]
pub fn shown_name(n: &'static str) -> bool { loop {} }
/// Two references are to the same error object
#[inline(never)]
pub fn same_error(a: &dyn std::error::Error, b: &dyn std::error::Error) -> bool { loop {} }
/// Any vectors of 1 to 255 bytes
#[inline(never)]
pub fn any_entries() -> Vec<Vec<u8>> { loop {} }
/// Output of the last LZW compression
#[inline(never)]
pub fn compressed() -> Vec<u8> { loop {} }
/// Input of the last LZW compression
#[inline(never)]
pub fn compressed_from() -> Vec<u8> { loop {} }
/// Remember the input and output of LZW compression from here
#[inline(never)]
pub fn keep_compressed() { loop {} }
/// Look for loop invariants about the element at an index
#[inline(never)]
pub fn focus(i: usize, x: u8) { loop {} }
/// Any value, with sub-blocks of 1 to 255 bytes
#[inline(never)]
pub fn any_blocks<T>() -> T { loop {} }
/// Set the object which models share
#[inline(never)]
pub fn set_world<T>(p: *mut T) { loop {} }
/// Object which models share
#[inline(never)]
pub fn world<T>() -> *mut T { loop {} }
/// Raster represented by one pixel
#[inline(never)]
pub fn raster_make<P: pix::el::Pixel>(w: i32, h: i32, p: P) -> pix::Raster<P> { loop {} }
/// Pixel representing a raster
#[inline(never)]
pub fn raster_px<P: pix::el::Pixel>(r: *mut pix::Raster<P>) -> *mut P { loop {} }
/// Same value, of the same type
#[inline(never)]
pub fn retype<A, B>(a: A) -> B { loop {} }
/// Some value which is not looked at
#[inline(never)]
pub fn opaque<T>() -> T { loop {} }
/// Vector with a known element (if k < n) and others which are not tracked
#[inline(never)]
pub fn junk_row<T>(n: usize, k: usize, v: T) -> Vec<T> { loop {} }
/// Look for loop invariants about an element which changes when its turn comes
#[inline(never)]
pub fn focus_pixel<T>(k: usize, old: T, new: T) { loop {} }
/// End of focus_pixel
#[inline(never)]
pub fn focus_done() { loop {} }

/// Try few bounds of counters at loops
#[inline(never)]
pub fn hasty_bounds() { loop {} }

/// The same value, with the elements of its arrays listed one by one
#[inline(never)]
pub fn listed<T>(_v: T) -> T { loop {} }

/// Element `k` of the row handed out is `old`, and must not be passed
#[inline(never)]
pub fn focus_never<T>(_k: usize, _old: T) { loop {} }

/// Raster with all of its bytes
#[inline(never)]
pub fn raster_bytes<P: pix::el::Pixel>(_w: i32, _h: i32, _b: Vec<u8>) -> pix::Raster<P> { loop {} }

/// Bytes of a raster
#[inline(never)]
pub fn raster_data<P: pix::el::Pixel>(_r: *const pix::Raster<P>) -> *const Vec<u8> { loop {} }

/// Palette with given colors
#[inline(never)]
pub fn palette_of(_c: Vec<pix::rgb::SRgb8>) -> pix::Palette { loop {} }

/// Loops outside of the specification are short; all of their iterations are analysed
#[inline(never)]
pub fn short_loops() { loop {} }
