pub use std::io::*;
