pub use std::sync::atomic::*;

use crate::sched::point;
use std::fmt;
use std::sync::atomic as sa;

pub fn fence(o: Ordering) { point("fence", None); sa::fence(o) }
#[allow(deprecated)]
pub fn spin_loop_hint() { crate::thread::yield_now() }

macro_rules! common {
    ($name:ident, $t:ty) => {
        #[derive(Default)]
        pub struct $name(sa::$name);
        impl fmt::Debug for $name {
            fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result { self.0.fmt(f) }
        }
        impl From<$t> for $name { fn from(v: $t) -> Self { $name::new(v) } }
        impl $name {
            pub const fn new(v: $t) -> Self { $name(sa::$name::new(v)) }
            pub fn load(&self, o: Ordering) -> $t { point("atomic load", None); self.0.load(o) }
            pub fn store(&self, v: $t, o: Ordering) { point("atomic store", None); self.0.store(v, o) }
            pub fn swap(&self, v: $t, o: Ordering) -> $t { point("atomic swap", None); self.0.swap(v, o) }
            pub fn compare_exchange(&self, a: $t, b: $t, s: Ordering, f: Ordering) -> Result<$t, $t> { point("atomic cas", None); self.0.compare_exchange(a, b, s, f) }
            pub fn compare_exchange_weak(&self, a: $t, b: $t, s: Ordering, f: Ordering) -> Result<$t, $t> { point("atomic cas", None); self.0.compare_exchange(a, b, s, f) }
            #[allow(deprecated)]
            pub fn compare_and_swap(&self, a: $t, b: $t, o: Ordering) -> $t { point("atomic cas", None); self.0.compare_and_swap(a, b, o) }
            pub fn fetch_update<F: FnMut($t) -> Option<$t>>(&self, s: Ordering, f: Ordering, mut g: F) -> Result<$t, $t> {
                let mut prev = self.load(f);
                while let Some(next) = g(prev) {
                    match self.compare_exchange_weak(prev, next, s, f) {
                        x @ Ok(_) => return x,
                        Err(p) => prev = p,
                    }
                }
                Err(prev)
            }
            pub fn get_mut(&mut self) -> &mut $t { self.0.get_mut() }
            pub fn into_inner(self) -> $t { self.0.into_inner() }
        }
    };
}
macro_rules! int {
    ($name:ident, $t:ty) => {
        common!($name, $t);
        impl $name {
            pub fn fetch_add(&self, v: $t, o: Ordering) -> $t { point("atomic rmw", None); self.0.fetch_add(v, o) }
            pub fn fetch_sub(&self, v: $t, o: Ordering) -> $t { point("atomic rmw", None); self.0.fetch_sub(v, o) }
            pub fn fetch_and(&self, v: $t, o: Ordering) -> $t { point("atomic rmw", None); self.0.fetch_and(v, o) }
            pub fn fetch_or(&self, v: $t, o: Ordering) -> $t { point("atomic rmw", None); self.0.fetch_or(v, o) }
            pub fn fetch_xor(&self, v: $t, o: Ordering) -> $t { point("atomic rmw", None); self.0.fetch_xor(v, o) }
            pub fn fetch_max(&self, v: $t, o: Ordering) -> $t { point("atomic rmw", None); self.0.fetch_max(v, o) }
            pub fn fetch_min(&self, v: $t, o: Ordering) -> $t { point("atomic rmw", None); self.0.fetch_min(v, o) }
        }
    };
}
int!(AtomicUsize, usize);
int!(AtomicIsize, isize);
int!(AtomicU8, u8);
int!(AtomicU16, u16);
int!(AtomicU32, u32);
int!(AtomicU64, u64);
int!(AtomicI8, i8);
int!(AtomicI16, i16);
int!(AtomicI32, i32);
int!(AtomicI64, i64);
common!(AtomicBool, bool);
impl AtomicBool {
    pub fn fetch_and(&self, v: bool, o: Ordering) -> bool { point("atomic rmw", None); self.0.fetch_and(v, o) }
    pub fn fetch_or(&self, v: bool, o: Ordering) -> bool { point("atomic rmw", None); self.0.fetch_or(v, o) }
    pub fn fetch_xor(&self, v: bool, o: Ordering) -> bool { point("atomic rmw", None); self.0.fetch_xor(v, o) }
    pub fn fetch_not(&self, o: Ordering) -> bool { point("atomic rmw", None); self.0.fetch_xor(true, o) }
}
#[allow(deprecated)]
pub const ATOMIC_USIZE_INIT: AtomicUsize = AtomicUsize::new(0);
#[allow(deprecated)]
pub const ATOMIC_BOOL_INIT: AtomicBool = AtomicBool::new(false);
#[allow(deprecated)]
pub const ATOMIC_ISIZE_INIT: AtomicIsize = AtomicIsize::new(0);
