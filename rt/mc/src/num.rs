//! Small f64 helpers shared by the oracles.

pub type V = [f64; 3];

pub fn add(a: V, b: V) -> V { [a[0] + b[0], a[1] + b[1], a[2] + b[2]] }
pub fn sub(a: V, b: V) -> V { [a[0] - b[0], a[1] - b[1], a[2] - b[2]] }
pub fn mul(a: V, s: f64) -> V { [a[0] * s, a[1] * s, a[2] * s] }
pub fn dot(a: V, b: V) -> f64 { a[0] * b[0] + a[1] * b[1] + a[2] * b[2] }
pub fn cross(a: V, b: V) -> V { [a[1] * b[2] - a[2] * b[1], a[2] * b[0] - a[0] * b[2], a[0] * b[1] - a[1] * b[0]] }
pub fn len(a: V) -> f64 { dot(a, a).sqrt() }
pub fn norm(a: V) -> V { mul(a, 1. / len(a)) }
pub fn close(a: V, b: V, tol: f64) -> bool { (0..3).all(|i| (a[i] - b[i]).abs() <= tol) }
pub fn rel(a: f64, b: f64) -> f64 { (a - b).abs() / a.abs().max(b.abs()).max(1e-300) }

/// Order-preserving map of f32 to integers, -0 and 0 both 0.
pub fn ord32(x: f32) -> i64 {
    let b = x.to_bits();
    if b >> 31 == 0 { b as i64 } else { -((b & 0x7fff_ffff) as i64) }
}
/// Distance in representable numbers.
pub fn ulps(a: f32, b: f32) -> u64 { (ord32(a) - ord32(b)).unsigned_abs() }

/// A low-cost deterministic hash (for deriving distinct parameters, not for sampling).
pub fn mix(mut x: u64) -> u64 {
    x ^= x >> 33;
    x = x.wrapping_mul(0xff51afd7ed558ccd);
    x ^= x >> 33;
    x = x.wrapping_mul(0xc4ceb9fe1a85ec53);
    x ^ (x >> 33)
}
