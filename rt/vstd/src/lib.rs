//! A stand-in for `std` that the generated copy of the code under test is
//! compiled against.  Everything is re-exported from the real `std`, except
//! the parts a model checker has to control: locks, atomics, channels and
//! threads (`sync`, `thread`), the file system (`fs`) and process exit.
//! Outside a controlled execution all of it behaves like the real thing,
//! except `fs`, which always works on an in-memory file system.

pub use std::*;

pub mod sched;
pub mod sync;
pub mod thread;
pub mod fs;
pub mod process;
pub mod hint;
pub mod io;

/// Diagnostics of the code under test are evaluated but not printed.
#[macro_export]
macro_rules! eprintln { ($($t:tt)*) => {{ let _ = ::std::format!($($t)*); }}; () => {{}} }
#[macro_export]
macro_rules! eprint { ($($t:tt)*) => {{ let _ = ::std::format!($($t)*); }}; }
#[macro_export]
macro_rules! println { ($($t:tt)*) => {{ let _ = ::std::format!($($t)*); }}; () => {{}} }
#[macro_export]
macro_rules! print { ($($t:tt)*) => {{ let _ = ::std::format!($($t)*); }}; }
