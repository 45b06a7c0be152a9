//! C27: rounding primitives are exact for every float.
use mc::num::ord32;
use mc::{Check, Digits, Level};
use pt::common::*;

fn main() {
    let mut c = Check::new("C27", Level::Exploration);
    c.assume("the leading coefficient of a quadratic is not zero; lerp's parameter lies in [0, 1]");
    // every one of the 2^32 bit patterns
    c.family("next float", "all 2^32 bit patterns (65536 per case) against the order of the representable numbers; non-trivial: finite", 1 << 16, |i, cx| {
        let mut finite = 0;
        for k in 0..65536u32 {
            let x = f32::from_bits((i as u32) << 16 | k);
            if x.is_nan() {
                continue;
            }
            let (u, d) = (next_float_up(x), next_float_down(x));
            if x.is_finite() {
                finite += 1;
                // the neighbours of the largest numbers are the infinities, which follow them in this order
                if u.is_nan() || ord32(u) != ord32(x) + 1 {
                    cx.fail(format!("next_float_up({:e} = {:#010x}) = {:e}", x, x.to_bits(), u));
                }
                if d.is_nan() || ord32(d) != ord32(x) - 1 {
                    cx.fail(format!("next_float_down({:e} = {:#010x}) = {:e}", x, x.to_bits(), d));
                }
            } else if x > 0. && u != x {
                cx.fail(format!("next_float_up(inf) = {:e}", u));
            } else if x < 0. && d != x {
                cx.fail(format!("next_float_down(-inf) = {:e}", d));
            }
        }
        cx.evals(65535);
        cx.nontrivials(finite);
        cx.sample(|| format!("patterns {:#06x}0000..{:#06x}ffff", i, i));
    });

    // quadratics with known roots: a (t - r1)(t - r2), all coefficients exact in f64
    let mut roots: Vec<f64> = vec![0.];
    for m in [1., 3., 5., 7., 1023., 1025., 1048577.] {
        for e in [-30, -20, -12, -4, -1, 0, 1, 3, 10, 20, 30] {
            let r = m * 2f64.powi(e);
            roots.extend([r, -r]);
        }
    }
    let scales = [1., -1., 2., -0.25, 3., 1024., -0.000030517578125];
    let n = roots.len();
    c.family("quadratic with roots", "a(t-r1)(t-r2) for every pair of a lattice of roots spanning 10^18 in ratio, signs, zero and double roots, and every scale; non-trivial: roots of very different size (cancellation) or coinciding", (n * n * scales.len()) as u64, |i, cx| {
        let mut d = Digits(i);
        let (r1, r2, a) = (*d.of(&roots), *d.of(&roots), *d.of(&scales));
        let (lo, hi) = if r1 <= r2 { (r1, r2) } else { (r2, r1) };
        let b = -a * (r1 + r2);
        let cc = a * (r1 * r2);
        // nearly double roots only where the coefficients are exact
        let sum = r1 + r2;
        let exact = {
            let prod = r1 * r2;
            sum - r1 == r2 && sum - r2 == r1 && r1.mul_add(r2, -prod) == 0. && a.mul_add(sum, b) == 0. && a.mul_add(prod, -cc) == 0.
        };
        if !exact && (r1 - r2).abs() < 1e-3 * r1.abs().max(r2.abs()) {
            return;
        }
        if r1 == r2 || r1.abs() > 1e4 * r2.abs() || r2.abs() > 1e4 * r1.abs() { cx.nontrivial(); }
        let got = quadratic(a, b, cc);
        cx.sample(|| format!("{}(t-{})(t-{}) -> {:?}", a, r1, r2, got));
        let (t0, t1) = match got {
            Some(t) => t,
            None => {
                // rounding of the discriminant may lose a (nearly) double root only
                let gap = (hi - lo).abs() / hi.abs().max(lo.abs()).max(1e-300);
                cx.check(gap > 0. && gap < 1e-6, || format!("no roots for {}(t-{})(t-{})", a, r1, r2));
                return;
            }
        };
        let scale = hi.abs().max(lo.abs());
        let gap = (hi - lo).abs() / scale.max(1e-300);
        for (t, r) in [(t0, lo), (t1, hi)] {
            // a root is accurate to rounding; a nearly double one to what its conditioning allows
            let eps = f64::EPSILON * 8.;
            let tol = if scale == 0. { 0. } else { eps * r.abs() * (1. + 1. / gap.max(1e-7)) + if r == 0. { 0. } else { 0. } };
            if !((t - r).abs() <= tol) {
                cx.fail(format!("roots of {}(t-{})(t-{}) come out as ({:e}, {:e})", a, r1, r2, t0, t1));
                break;
            }
        }
        cx.check(t0 <= t1, || format!("roots of {}(t-{})(t-{}) are not ascending: ({}, {})", a, r1, r2, t0, t1));
    });
    // existence, by exact integer arithmetic
    let m = c.pick(24i64, 60);
    let w = (2 * m + 1) as u64;
    c.family("quadratic existence", "every integer triple (a, b, c), a != 0: roots exist exactly if b^2 - 4ac >= 0 and are roots; non-trivial: discriminant within 4 of zero", w * w * w, |i, cx| {
        let mut d = Digits(i);
        let a = d.take(w as usize) as i64 - m;
        let b = d.take(w as usize) as i64 - m;
        let cc = d.take(w as usize) as i64 - m;
        if a == 0 {
            return;
        }
        let disc = b * b - 4 * a * cc;
        if disc.abs() <= 4 { cx.nontrivial(); }
        let got = quadratic(a as f64, b as f64, cc as f64);
        cx.sample(|| format!("{}t^2+{}t+{} -> {:?}", a, b, cc, got));
        if !cx.check(got.is_some() == (disc >= 0), || format!("{}t^2+{}t+{} has discriminant {} but the answer is {:?}", a, b, cc, disc, got)) {
            return;
        }
        if let Some((t0, t1)) = got {
            let ok = t0 <= t1 && [t0, t1].iter().all(|t| {
                let r = a as f64 * t * t + b as f64 * t + cc as f64;
                r.abs() <= 1e-13 * ((a as f64 * t * t).abs() + (b as f64 * t).abs() + (cc as f64).abs())
            });
            let s = -(b as f64) / a as f64;
            let ok = ok && (t0 + t1 - s).abs() <= 1e-13 * (t0.abs() + t1.abs() + s.abs());
            cx.check(ok, || format!("roots of {}t^2+{}t+{} come out as ({}, {})", a, b, cc, t0, t1));
        }
    });

    let xs: Vec<f32> = vec![f32::NEG_INFINITY, f32::MIN, -1e10, -3., -1., -0.5, -1e-40, -0., 0., 1e-40, f32::MIN_POSITIVE, 0.25, 0.5, 1f32.next_down(), 1., 1f32.next_up(), 2., 255., 1e10, f32::MAX, f32::INFINITY];
    let n = xs.len() as u64;
    c.family("clamp", "every (x, low, high) of special values with low <= high; non-trivial: x outside the bounds", n * n * n, |i, cx| {
        let mut d = Digits(i);
        let (x, lo, hi) = (*d.of(&xs), *d.of(&xs), *d.of(&xs));
        if lo > hi {
            return;
        }
        if x < lo || x > hi { cx.nontrivial(); }
        let got = clamp(x, lo, hi);
        cx.sample(|| format!("clamp({}, {}, {}) = {}", x, lo, hi, got));
        let want = if x < lo { lo } else if x > hi { hi } else { x };
        cx.check(got == want, || format!("clamp({:e}, {:e}, {:e}) = {:e}", x, lo, hi, got));
        let (a, b, k) = (x.max(-1e6).min(1e6) as i32, lo.max(-1e6).min(1e6) as i32, hi.max(-1e6).min(1e6) as i32);
        let g = clamp(a, b, k);
        cx.check(g == a.max(b).min(k), || format!("clamp({}, {}, {}) = {}", a, b, k, g));
    });
    let ts: Vec<f32> = (0..=64).map(|k| k as f32 / 64.).chain([1e-40, 1e-8, 0.1, 0.3, 1f32.next_down()]).collect();
    let vs: Vec<f32> = xs.iter().cloned().filter(|x| x.abs() <= 1e10).collect();
    c.family("lerp", "every (t, v1, v2): between the ends up to rounding, exactly the ends at 0 and 1, and the affine value; non-trivial: the ends differ", (ts.len() * vs.len() * vs.len()) as u64, |i, cx| {
        let mut d = Digits(i);
        let (t, a, b) = (*d.of(&ts), *d.of(&vs), *d.of(&vs));
        if a != b { cx.nontrivial(); }
        let got = lerp(t, a, b);
        cx.sample(|| format!("lerp({}, {}, {}) = {}", t, a, b, got));
        let want = (1. - t as f64) * a as f64 + t as f64 * b as f64;
        let tol = 4. * f32::EPSILON as f64 * (a.abs().max(b.abs())) as f64 + 1e-44;
        let (lo, hi) = (a.min(b) as f64, a.max(b) as f64);
        cx.check((got as f64 - want).abs() <= tol && got as f64 >= lo - tol && got as f64 <= hi + tol, || format!("lerp({:e}, {:e}, {:e}) = {:e}, expected {:e}", t, a, b, got, want));
        if t == 0. || t == 1. {
            let e = if t == 0. { a } else { b };
            cx.check(got == e, || format!("lerp({}, {:e}, {:e}) = {:e}", t, a, b, got));
        }
    });
    c.family("gamma", "the error bound gamma(n) = n u / (1 - n u) for n in 0..=1000", 1001, |i, cx| {
        cx.nontrivial();
        let u = f32::EPSILON as f64 / 2.;
        let want = i as f64 * u / (1. - i as f64 * u);
        let got = gamma(i as f32) as f64;
        cx.sample(|| format!("gamma({}) = {:e}", i, got));
        cx.check((got - want).abs() <= 4. * f32::EPSILON as f64 * want, || format!("gamma({}) = {:e}, expected {:e}", i, got, want));
    });
    c.finish();
}
