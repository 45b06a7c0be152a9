//! A stand-in for rand 0.3 in which every random number has an identity: it is
//! the `pos`-th output of stream `stream`.  Creating a generator from the
//! operating system's entropy opens a new stream; seeding one opens the stream
//! of that seed; cloning one copies stream and position, as the real ones do.
//! Different identities give different f32, f64, u32 and u64 values (as long as
//! a run uses fewer than 2^10 streams of 2^14 numbers).

use std::io;
use vstd::sched::world_or_default;

#[derive(Clone, Copy, Debug)]
struct Core {
    stream: u64,
    pos: u64,
}

fn fresh() -> u64 {
    let w = world_or_default();
    let mut s = w.streams.lock().unwrap();
    s.next += 1;
    s.next - 1
}

fn seeded(seed: Vec<u64>) -> u64 {
    let w = world_or_default();
    let mut s = w.streams.lock().unwrap();
    if let Some((_, k)) = s.seeds.iter().find(|(v, _)| *v == seed) {
        return *k;
    }
    let k = s.next;
    s.next += 1;
    s.seeds.push((seed, k));
    k
}

/// A bijection on 24-bit numbers that scatters neighbours.
fn mix24(x: u32) -> u32 {
    let mut x = x & 0xff_ffff;
    x = x.wrapping_mul(0x9e3779b1) & 0xff_ffff; // odd multiplier: a bijection mod 2^24
    x ^= x >> 12;
    x = x.wrapping_mul(0x85ebca6b) & 0xff_ffff;
    x ^= x >> 13;
    x
}

impl Core {
    fn next(&mut self) -> u32 {
        let id = ((self.stream & 0x3ff) << 14 | (self.pos & 0x3fff)) as u32;
        self.pos += 1;
        mix24(id)
    }
}

pub trait Rng {
    fn next_u32(&mut self) -> u32;
    fn next_u64(&mut self) -> u64 { (self.next_u32() as u64) << 32 | (self.next_u32() as u64) }
    fn next_f32(&mut self) -> f32 { (self.next_u32() >> 8) as f32 / (1u32 << 24) as f32 }
    fn next_f64(&mut self) -> f64 { (self.next_u64() >> 11) as f64 / (1u64 << 53) as f64 }
    fn fill_bytes(&mut self, dest: &mut [u8]) {
        for c in dest.chunks_mut(4) {
            let b = self.next_u32().to_le_bytes();
            let n = c.len();
            c.copy_from_slice(&b[4 - n..]);
        }
    }
    fn gen<T: Rand>(&mut self) -> T where Self: Sized { T::rand(self) }
    fn gen_iter<'a, T: Rand>(&'a mut self) -> Generator<'a, T, Self> where Self: Sized { Generator { rng: self, _m: std::marker::PhantomData } }
    fn gen_range<T: PartialOrd + distributions::range::SampleRange>(&mut self, low: T, high: T) -> T where Self: Sized {
        assert!(low < high, "Rng.gen_range called with low >= high");
        T::sample_range(low, high, self)
    }
    fn gen_weighted_bool(&mut self, n: u32) -> bool where Self: Sized { n <= 1 || self.gen_range(0, n) == 0 }
    fn choose<'a, T>(&mut self, v: &'a [T]) -> Option<&'a T> where Self: Sized {
        if v.is_empty() { None } else { Some(&v[self.gen_range(0, v.len())]) }
    }
    fn choose_mut<'a, T>(&mut self, v: &'a mut [T]) -> Option<&'a mut T> where Self: Sized {
        if v.is_empty() { None } else { let k = self.gen_range(0, v.len()); Some(&mut v[k]) }
    }
    fn shuffle<T>(&mut self, v: &mut [T]) where Self: Sized {
        let mut i = v.len();
        while i >= 2 {
            i -= 1;
            let k = self.gen_range(0, i + 1);
            v.swap(i, k);
        }
    }
}

impl<'a, R: ?Sized + Rng> Rng for &'a mut R {
    fn next_u32(&mut self) -> u32 { (**self).next_u32() }
    fn next_u64(&mut self) -> u64 { (**self).next_u64() }
}
impl<R: ?Sized + Rng> Rng for Box<R> {
    fn next_u32(&mut self) -> u32 { (**self).next_u32() }
    fn next_u64(&mut self) -> u64 { (**self).next_u64() }
}

pub struct Generator<'a, T, R: 'a> { rng: &'a mut R, _m: std::marker::PhantomData<T> }
impl<'a, T: Rand, R: Rng> Iterator for Generator<'a, T, R> { type Item = T; fn next(&mut self) -> Option<T> { Some(T::rand(self.rng)) } }

pub trait SeedableRng<Seed>: Rng {
    fn reseed(&mut self, s: Seed);
    fn from_seed(s: Seed) -> Self;
}

pub trait Rand: Sized {
    fn rand<R: Rng>(rng: &mut R) -> Self;
}

macro_rules! ints { ($($t:ty),*) => { $(
    impl Rand for $t { fn rand<R: Rng>(rng: &mut R) -> $t { rng.next_u64() as $t } }
)* } }
impl Rand for u32 { fn rand<R: Rng>(rng: &mut R) -> u32 { rng.next_u32() } }
impl Rand for i32 { fn rand<R: Rng>(rng: &mut R) -> i32 { rng.next_u32() as i32 } }
ints!(u64, i64, usize, isize);
impl Rand for u8 { fn rand<R: Rng>(rng: &mut R) -> u8 { (rng.next_u32() >> 24) as u8 } }
impl Rand for u16 { fn rand<R: Rng>(rng: &mut R) -> u16 { (rng.next_u32() >> 16) as u16 } }
impl Rand for i8 { fn rand<R: Rng>(rng: &mut R) -> i8 { (rng.next_u32() >> 24) as i8 } }
impl Rand for i16 { fn rand<R: Rng>(rng: &mut R) -> i16 { (rng.next_u32() >> 16) as i16 } }
impl Rand for f32 { fn rand<R: Rng>(rng: &mut R) -> f32 { rng.next_f32() } }
impl Rand for f64 { fn rand<R: Rng>(rng: &mut R) -> f64 { rng.next_f64() } }
impl Rand for bool { fn rand<R: Rng>(rng: &mut R) -> bool { rng.next_u32() >> 31 == 1 } }
impl<A: Rand, B: Rand> Rand for (A, B) { fn rand<R: Rng>(rng: &mut R) -> (A, B) { (A::rand(rng), B::rand(rng)) } }
impl<A: Rand, B: Rand, C: Rand> Rand for (A, B, C) { fn rand<R: Rng>(rng: &mut R) -> (A, B, C) { (A::rand(rng), B::rand(rng), C::rand(rng)) } }
impl<T: Rand, const N: usize> Rand for [T; N] { fn rand<R: Rng>(rng: &mut R) -> [T; N] { std::array::from_fn(|_| T::rand(rng)) } }
impl<T: Rand> Rand for Option<T> { fn rand<R: Rng>(rng: &mut R) -> Option<T> { if bool::rand(rng) { Some(T::rand(rng)) } else { None } } }

pub struct Open01<F>(pub F);
pub struct Closed01<F>(pub F);
macro_rules! f01 { ($t:ty) => {
    impl Rand for Open01<$t> { fn rand<R: Rng>(rng: &mut R) -> Self { Open01(<$t>::rand(rng).max(<$t>::EPSILON / 2.)) } }
    impl Rand for Closed01<$t> { fn rand<R: Rng>(rng: &mut R) -> Self { Closed01(<$t>::rand(rng)) } }
} }
f01!(f32);
f01!(f64);

macro_rules! rng_type { ($name:ident) => {
    #[derive(Clone, Copy, Debug)]
    pub struct $name(Core);
    impl $name {
        pub fn new() -> io::Result<$name> { Ok($name(Core { stream: fresh(), pos: 0 })) }
    }
    impl Rng for $name {
        fn next_u32(&mut self) -> u32 { let v = self.0.next(); v << 8 | v >> 16 }
    }
    impl Rand for $name {
        fn rand<R: Rng>(rng: &mut R) -> $name {
            let s = vec![rng.next_u32() as u64];
            $name(Core { stream: seeded(s), pos: 0 })
        }
    }
    impl<'a> SeedableRng<&'a [usize]> for $name {
        fn reseed(&mut self, s: &'a [usize]) { *self = Self::from_seed(s) }
        fn from_seed(s: &'a [usize]) -> $name { $name(Core { stream: seeded(s.iter().map(|&v| v as u64).collect()), pos: 0 }) }
    }
    impl<'a> SeedableRng<&'a [u32]> for $name {
        fn reseed(&mut self, s: &'a [u32]) { *self = Self::from_seed(s) }
        fn from_seed(s: &'a [u32]) -> $name { $name(Core { stream: seeded(s.iter().map(|&v| v as u64).collect()), pos: 0 }) }
    }
    impl<'a> SeedableRng<&'a [u64]> for $name {
        fn reseed(&mut self, s: &'a [u64]) { *self = Self::from_seed(s) }
        fn from_seed(s: &'a [u64]) -> $name { $name(Core { stream: seeded(s.to_vec()), pos: 0 }) }
    }
    impl SeedableRng<[u32; 4]> for $name {
        fn reseed(&mut self, s: [u32; 4]) { *self = Self::from_seed(s) }
        fn from_seed(s: [u32; 4]) -> $name { $name(Core { stream: seeded(s.iter().map(|&v| v as u64).collect()), pos: 0 }) }
    }
} }
rng_type!(StdRng);
rng_type!(OsRng);
rng_type!(XorShiftRng);
rng_type!(IsaacRng);
rng_type!(Isaac64Rng);
rng_type!(ChaChaRng);

thread_local! {
    static THREAD: std::cell::RefCell<Option<(usize, StdRng)>> = const { std::cell::RefCell::new(None) };
}
#[derive(Clone, Debug)]
pub struct ThreadRng(());
pub fn thread_rng() -> ThreadRng { ThreadRng(()) }
impl Rng for ThreadRng {
    fn next_u32(&mut self) -> u32 {
        let w = std::sync::Arc::as_ptr(&world_or_default()) as usize;
        THREAD.with(|t| {
            let mut t = t.borrow_mut();
            if t.as_ref().map_or(true, |x| x.0 != w) {
                *t = Some((w, StdRng::new().unwrap()));
            }
            t.as_mut().unwrap().1.next_u32()
        })
    }
}
pub fn weak_rng() -> XorShiftRng { XorShiftRng::new().unwrap() }
pub fn random<T: Rand>() -> T { thread_rng().gen() }

pub mod distributions {
    use super::Rng;
    pub trait Sample<T> { fn sample<R: Rng>(&mut self, rng: &mut R) -> T; }
    pub trait IndependentSample<T>: Sample<T> { fn ind_sample<R: Rng>(&self, rng: &mut R) -> T; }
    pub mod range {
        use super::super::{Rand, Rng};
        use super::{IndependentSample, Sample};
        pub trait SampleRange: Sized + Copy {
            fn sample_range<R: Rng>(low: Self, high: Self, rng: &mut R) -> Self;
        }
        macro_rules! int { ($($t:ty),*) => { $(
            impl SampleRange for $t {
                fn sample_range<R: Rng>(low: $t, high: $t, rng: &mut R) -> $t {
                    let span = (high as i128 - low as i128) as u128;
                    (low as i128 + (rng.next_u64() as u128 % span) as i128) as $t
                }
            }
        )* } }
        int!(u8, u16, u32, u64, usize, i8, i16, i32, i64, isize);
        macro_rules! flt { ($($t:ty),*) => { $(
            impl SampleRange for $t {
                fn sample_range<R: Rng>(low: $t, high: $t, rng: &mut R) -> $t { low + (high - low) * <$t as Rand>::rand(rng) }
            }
        )* } }
        flt!(f32, f64);
        #[derive(Clone, Copy, Debug)]
        pub struct Range<X> { low: X, high: X }
        impl<X: SampleRange + PartialOrd> Range<X> {
            pub fn new(low: X, high: X) -> Range<X> { assert!(low < high); Range { low, high } }
        }
        impl<X: SampleRange> Sample<X> for Range<X> { fn sample<R: Rng>(&mut self, rng: &mut R) -> X { X::sample_range(self.low, self.high, rng) } }
        impl<X: SampleRange> IndependentSample<X> for Range<X> { fn ind_sample<R: Rng>(&self, rng: &mut R) -> X { X::sample_range(self.low, self.high, rng) } }
    }
    pub use self::range::Range;
}
pub mod os { pub use super::OsRng; }
pub mod isaac { pub use super::{Isaac64Rng, IsaacRng}; }
pub mod chacha { pub use super::ChaChaRng; }
