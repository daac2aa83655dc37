// The Rust-only part of FAST's interface, callable from the harness; keeps the crate's C functions linked.
extern crate fast64;
use fast64::FAST;
#[no_mangle] pub extern "C" fn slow64(t: *const FAST<u64>, key: u64, a: *mut u64, b: *mut u64) { unsafe { let (x, y) = (*t).slow_lookup(key); *a = x; *b = y; } }
#[no_mangle] pub extern "C" fn slow32(t: *const FAST<u32>, key: u32, a: *mut u32, b: *mut u32) { unsafe { let (x, y) = (*t).slow_lookup(key); *a = x; *b = y; } }
#[no_mangle] pub extern "C" fn depth64(t: *const FAST<u64>) -> u64 { unsafe { (*t).depth() as u64 } }
#[no_mangle] pub extern "C" fn depth32(t: *const FAST<u32>) -> u64 { unsafe { (*t).depth() as u64 } }
pub use fast64::{create_fast64, lookup_fast64, destroy_fast64, size_fast64, create_fast32, lookup_fast32, destroy_fast32, size_fast32};
