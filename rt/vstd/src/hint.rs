pub use std::hint::*;
pub fn spin_loop() { crate::thread::yield_now(); }
