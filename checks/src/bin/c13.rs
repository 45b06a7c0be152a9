//! C13: sphere hits are the nearest in range and lie on the sphere.
use checks::*;
use mc::{Check, Cx, Digits, Level};
use pt::api::*;
use pt::ray::Ray;
use std::sync::Arc;

const INF: f32 = f32::INFINITY;

fn sub(a: [f64; 3], b: [f64; 3]) -> [f64; 3] { [a[0] - b[0], a[1] - b[1], a[2] - b[2]] }
fn dot(a: [f64; 3], b: [f64; 3]) -> f64 { a[0] * b[0] + a[1] * b[1] + a[2] * b[2] }
fn len(a: [f64; 3]) -> f64 { dot(a, a).sqrt() }

/// One ray.  `exact`: all inputs are small dyadic numbers, so that hit or miss is decided without rounding.
fn one(c: [f64; 3], r: f64, o: [f64; 3], d: [f64; 3], t_max: f32, exact: bool, cx: &mut Cx) {
    let sphere = Sphere::new(p3(c), r as f32, Arc::new(NoMaterial));
    let ray = Ray { origin: p3(o), direction: v3(d), t_max };
    // the numbers as they really are
    let (c, r, o, d) = (ap(p3(c)), (r as f32) as f64, ap(ray.origin), a3(ray.direction));
    let what = || format!("sphere {:?} radius {}, ray {:?} + t {:?}, t < {:e}", c, r, o, d, t_max);
    let l = sub(o, c);
    let (a, b, k) = (dot(d, d), dot(d, l), dot(l, l) - r * r);
    let disc = b * b - a * k;
    // how far rounding of the relative origin can move things
    let dl = if exact { 0. } else { 1.2e-7 * (len(o) + len(c)) + 1e-7 * len(l) };
    let fuzzy = !exact && disc.abs() <= 4. * a * dl * (len(l) + r);
    let any = sphere.intersect_p(&ray);
    let hit = sphere.intersect(&ray);
    cx.evals(1);
    if any != hit.is_some() {
        cx.fail(format!("{}: the any-hit query answers {}, the closest-hit query {}", what(), any, hit.as_ref().map_or("no hit".to_string(), |h| format!("t = {}", h.1))));
        return;
    }
    // roots, without cancellation
    let (mut want, mut either, mut tol) = (None, fuzzy, 0.);
    if disc >= 0. {
        let s = disc.sqrt();
        let q = if b < 0. { -b + s } else { -b - s };
        let (mut t0, mut t1) = if q == 0. { (0., 0.) } else { (q / a, k / q) };
        if t0 > t1 { std::mem::swap(&mut t0, &mut t1); }
        tol = if exact { 0. } else { dl / a.sqrt() * (1. + (len(l) + r) * a.sqrt() / s.max(1e-300)) };
        for t in [t0, t1] {
            let eps = tol + 1e-7 * t.abs();
            if t == 0. && exact { continue; }
            if t.abs() <= tol { either = true; }
            if t_max.is_finite() && (t - t_max as f64).abs() <= eps && !(exact && t == t_max as f64) { either = true; }
            if t > 0. && t < t_max as f64 && want.is_none() { want = Some(t); }
        }
    }
    let (i, t) = match (want, hit) {
        (None, None) => return,
        (Some(_), None) => { if !either { cx.fail(format!("{}: no hit is reported, there is one at t = {}", what(), want.unwrap())); } return; }
        (None, Some((_, t))) if !either => { cx.fail(format!("{}: a hit is reported at t = {}, there is none", what(), t)); return; }
        (_, Some(h)) => h,
    };
    cx.nontrivials(1);
    if !(t > 0. && t < t_max) {
        cx.fail(format!("{}: the hit at t = {} is out of range", what(), t));
        return;
    }
    if let (Some(w), false) = (want, either) {
        if !((t as f64 - w).abs() <= tol + 2e-7 * w) {
            cx.fail(format!("{}: the hit is reported at t = {}, the nearest is at {}", what(), t, w));
            return;
        }
    }
    // the point
    let p = ap(i.p);
    let e = a3(i.p_err);
    if !p.iter().all(|v| v.is_finite()) || !e.iter().all(|v| v.is_finite() && *v >= 0.) {
        cx.fail(format!("{}: point {:?} error {:?}", what(), p, e));
        return;
    }
    let n = sub(p, c);
    let dist = (len(n) - r).abs();
    // distance to the surface along the normal, in terms of the error box
    let bound = if len(n) > 0. { (0..3).map(|k| n[k].abs() / len(n) * e[k]).sum::<f64>() * 1.01 } else { len(e) };
    if !(dist <= bound) {
        cx.fail(format!("{}: the point {:?} is {:e} off the sphere, the reported error allows {:e}", what(), p, dist, bound));
        return;
    }
    if !(len(e) <= 1e-5 * (len(p) + len(c) + r)) {
        cx.fail(format!("{}: the reported error {:?} is excessive", what(), e));
        return;
    }
    let on = [o[0] + t as f64 * d[0], o[1] + t as f64 * d[1], o[2] + t as f64 * d[2]];
    // the point is pulled onto the sphere: it may move along by what rounding moved the parameter
    let slack = 2e-6 * (len(l) + r + t as f64 * a.sqrt()) + 4e-7 * (len(o) + len(c)) + tol * a.sqrt();
    if len(sub(p, on)) > slack {
        cx.fail(format!("{}: the point {:?} is {:e} off the ray at t = {}", what(), p, len(sub(p, on)), t));
        return;
    }
    let bb = pt::shape::Shape::bbox(&sphere);
    let m = 1e-6 * (r + len(c));
    for k in 0..3 {
        if p[k] < ap(bb.min)[k] - m || p[k] > ap(bb.max)[k] + m {
            cx.fail(format!("{}: the point {:?} is outside of the box {:?}..{:?}", what(), p, bb.min, bb.max));
        }
    }
}

fn main() {
    let mut c = Check::new("C13", Level::Exploration);
    let cs = [[0., 0., 0.], [2., -1., 3.], [1024., -512., 256.]];
    let rs = [1., 2., 0.5];
    let os: Vec<f64> = if c.thorough() { vec![-8., -3., -2., -1., -0.75, -0.5, 0., 0.25, 0.5, 0.625, 1., 2., 4.] } else { vec![-3., -2., -1., -0.5, 0., 0.25, 0.625, 1., 2.] };
    let ds: Vec<f64> = if c.thorough() { vec![-4., -2., -1., -0.5, 0., 0.75, 1., 3.] } else { vec![-2., -1., -0.5, 0., 0.75, 1., 3.] };
    let no = os.len();
    c.family("lattice", "three centres, three radii, origins on a lattice relative to the sphere (on it, inside, outside), directions on a lattice, range infinite and ending before, at and behind hits; decided exactly; non-trivial: hits", (9 * no * no * no) as u64, |i, cx| {
        let mut d = Digits(i);
        let (ce, r) = (*d.of(&cs), *d.of(&rs));
        let o = [*d.of(&os), *d.of(&os), *d.of(&os)].map(|v: f64| v * r);
        for x in ds.iter() { for y in ds.iter() { for z in ds.iter() {
            if *x == 0. && *y == 0. && *z == 0. { continue; }
            for t in [INF, 1., 2., 0.5] {
                one(ce, r, [o[0] + ce[0], o[1] + ce[1], o[2] + ce[2]], [*x, *y, *z], t, true, cx);
                if cx.failed() { return; }
            }
        } } }
        cx.sample(|| format!("centre {:?}, radius {}, origin {:?} relative to it", ce, r, o));
    });
    // spheres of other sizes and places, rays with every impact parameter, angle and distance
    let cs = [[0., 0., 0.], [0.3, -7.1, 2.9], [-1000.3, 20.7, 400.1], [1e5, 1e5, -3e4]];
    let rs = [1e-3, 0.1, 0.7, 13., 1000., 1e5];
    let imp = [0., 0.01, 0.3, 0.7, 0.95, 0.999, 0.99999, 1.00001, 1.001, 1.5];
    let dist = [0., 0.5, 0.99, 1.01, 1.5, 10., 1000., -0.5, -3.];
    let na = c.pick(12usize, 40);
    c.family("scales", "4 centres, 6 radii, origins at 9 distances along 3 x n directions, 10 impact parameters, 4 ring angles, 3 direction lengths; compared within rounding; non-trivial: hits", (cs.len() * rs.len() * dist.len() * imp.len() * na * 3) as u64, |i, cx| {
        let mut d = Digits(i);
        let (ce, r, ds, im) = (*d.of(&cs), *d.of(&rs), *d.of(&dist), *d.of(&imp));
        let (ka, kb) = (d.take(na), d.take(3));
        let (th, ph) = ((kb as f64 * 0.9 + 0.33), ka as f64 / na as f64 * std::f64::consts::TAU + 0.05);
        let w = [th.sin() * ph.cos(), th.sin() * ph.sin(), th.cos()];
        let u = [-ph.sin(), ph.cos(), 0.];
        let v = [w[1] * u[2] - w[2] * u[1], w[2] * u[0] - w[0] * u[2], w[0] * u[1] - w[1] * u[0]];
        for q in 0..4 {
            let a = q as f64 * 1.6 + 0.2;
            let side: [f64; 3] = [0, 1, 2].map(|k| (u[k] * a.cos() + v[k] * a.sin()) * im * r);
            // w points from the origin to the sphere
            let o: [f64; 3] = [0, 1, 2].map(|k| ce[k] + side[k] - w[k] * ds * r);
            for s in [1., 1e-3, 250.] {
                for t in [INF, (ds.abs() * r / s) as f32 + (0.5 * r / s) as f32] {
                    one(ce, r, o, [w[0] * s, w[1] * s, w[2] * s], t, false, cx);
                    if cx.failed() { return; }
                }
            }
        }
        cx.sample(|| format!("centre {:?}, radius {}, impact {}, distance {}", ce, r, im, ds));
    });
    c.finish();
}
