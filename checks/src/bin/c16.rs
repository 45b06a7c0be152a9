//! C16: rays leaving a surface do not hit the spot they left.
use checks::*;
use mc::{Check, Cx, Digits, Level};
use pt::api::*;
use pt::interaction::Interaction;
use pt::ray::Ray;
use pt::shape::Shape;
use std::sync::Arc;

const INF: f32 = f32::INFINITY;
fn sub(a: [f64; 3], b: [f64; 3]) -> [f64; 3] { [a[0] - b[0], a[1] - b[1], a[2] - b[2]] }
fn cross(a: [f64; 3], b: [f64; 3]) -> [f64; 3] { [a[1] * b[2] - a[2] * b[1], a[2] * b[0] - a[0] * b[2], a[0] * b[1] - a[1] * b[0]] }
fn dot(a: [f64; 3], b: [f64; 3]) -> f64 { a[0] * b[0] + a[1] * b[1] + a[2] * b[2] }
fn len(a: [f64; 3]) -> f64 { dot(a, a).sqrt() }
fn unit(a: [f64; 3]) -> [f64; 3] { let l = len(a); a.map(|x| x / l) }
fn mad(o: [f64; 3], d: [f64; 3], t: f64) -> [f64; 3] { [o[0] + t * d[0], o[1] + t * d[1], o[2] + t * d[2]] }
fn fib(k: usize, n: usize) -> [f64; 3] {
    let z = 1. - (2. * k as f64 + 1.) / n as f64;
    let ph = k as f64 * 2.39996322972865332;
    let s = (1. - z * z).sqrt();
    [s * ph.cos(), s * ph.sin(), z]
}

/// Directions relative to a normal: all around, along it, and a ladder of grazing ones on both sides.
fn around(n: [f64; 3], m: usize) -> Vec<[f64; 3]> {
    let mut v: Vec<[f64; 3]> = (0..m).map(|k| fib(k, m)).collect();
    v.push(n);
    v.push(n.map(|x| -x));
    let u = unit(cross(n, if n[0].abs() < 0.6 { [1., 0., 0.] } else { [0., 1., 0.] }));
    let w = cross(n, u);
    for k in 0..24 {
        let a = k as f64 * std::f64::consts::TAU / 24. + if k % 3 == 0 { 0. } else { 0.01 };
        for g in [0., 1e-7, 1e-6, 1e-5, 1e-4, 1e-3, 0.01, 0.05] { for s in [1., -1.] {
            v.push(unit([0, 1, 2].map(|i| u[i] * a.cos() + w[i] * a.sin() + s * g * n[i])));
        } }
    }
    v
}

/// The origin stays close to the hit point, on the side of the direction.
fn origin(i: &Interaction, r: &Ray, d: [f64; 3], what: &dyn Fn() -> String, cx: &mut Cx) -> bool {
    let off = sub(ap(r.origin), ap(i.p));
    let e = a3(i.p_err);
    let n = an(i.n);
    let m = ap(i.p).iter().fold(0f64, |a, x| a.max(x.abs()));
    let lim = 2. * (0..3).map(|k| n[k].abs() * e[k]).sum::<f64>() + 4e-7 * m + 1e-44;
    if !(len(off) <= lim) || !(len(off) <= 1e-5 * (m + len(e) / 3e-7)) {
        cx.fail(format!("{}: the ray in direction {:?} starts at {:?}, {:e} from the hit point {:?}", what(), d, ap(r.origin), len(off), ap(i.p)));
        return false;
    }
    let c = dot(n, d);
    if c.abs() > 1e-6 && dot(off, n) * c < 0. {
        cx.fail(format!("{}: the ray in direction {:?} starts at {:?}, on the other side of {:?} (normal {:?})", what(), d, ap(r.origin), ap(i.p), n));
        return false;
    }
    if a3(r.direction) != d || r.t_max != INF {
        cx.fail(format!("{}: the ray in direction {:?} has direction {:?} and range {}", what(), d, a3(r.direction), r.t_max));
        return false;
    }
    true
}

fn main() {
    let mut c = Check::new("C16", Level::Exploration);
    let shapes: [[[f64; 3]; 3]; 9] = [
        // one corner much farther out than the others
        [[5.1, 3.3, -4.7], [0.02, 0.01, -0.03], [-0.1, 0.3, 0.2]],
        [[0.02, 0.01, -0.03], [5.1, 3.3, -4.7], [-0.1, 0.3, 0.2]],
        [[-0.1, 0.3, 0.2], [0.02, 0.01, -0.03], [5.1, 3.3, -4.7]],
        [[0., 0., 0.], [1., 0., 0.], [0., 1., 0.]],
        [[0.1, 0.2, 0.3], [0.9, -0.4, 0.77], [-0.3, 0.8, 0.5]],
        [[1., 1., 1.], [1.1, 1.7, 0.2], [0.3, 1.3, 2.2]],
        [[0., 0., 0.], [3., 0.1, -0.2], [2.9, 0.33, 0.1]],
        [[-1., 0.5, 0.3], [0.2, -1., 0.4], [0.3, 0.1, -1.]],
        [[0., 0.3, 5.], [0., -0.7, 5.1], [0., 0.1, 3.9]],
    ];
    let places: [([f64; 3], f64); 10] = [([0., 0., 0.], 1.), ([30., -20., 7.], 1.), ([0.5, 0.25, -1.], 1e-2), ([-100., 300., 20.], 500.), ([1e4, 1e4, -2e4], 1e4), ([0., 0., 0.], 1e-3), ([0., 0., 0.], 2e-7), ([0., 0., 0.], 3e7), ([-0.3, -0.4, -1.], 1.), ([-700., -900., 300.], 3000.)];
    let bary: Vec<[f64; 2]> = { let n = c.pick(12, 30); (0..n).flat_map(|a| (0..n).map(move |b| [(a as f64 + 0.3) / n as f64, (b as f64 + 0.4) / n as f64])).filter(|b| b[0] + b[1] < 1.).collect() };
    let nd = c.pick(40usize, 200);
    let m = c.pick(150usize, 500);
    c.family("triangle", "9 triangles at 10 places and sizes from 2e-7 to 3e7, hit along 40 directions (thorough: 200) at a grid of points, and sampled points; from each, rays all around, along the normal and in 384 grazing directions on both sides; non-trivial: rays spawned", (9 * 10 * (nd + 1)) as u64, |i, cx| {
        let mut d = Digits(i);
        let (sh, (at, scale), k) = (*d.of(&shapes), *d.of(&places), d.take(nd + 1));
        let v = sh.map(|q| ap(p3([0, 1, 2].map(|a| q[a] * scale + at[a]))));
        let s = Triangle::new(v.map(|p| p3(p)), None, k % 2 == 1, Arc::new(NoMaterial));
        let n = unit(cross(sub(v[1], v[0]), sub(v[2], v[0])));
        let dir = fib(k, nd);
        let dirs: Vec<[f64; 3]> = around(n, m).into_iter().map(|d| a3(v3(d))).collect();
        for b in bary.iter() {
            let p = [0, 1, 2].map(|a| b[0] * v[0][a] + b[1] * v[1][a] + (1. - b[0] - b[1]) * v[2][a]);
            let h = if k == nd { s.sample(pt::vector::Point2f::new(b[0] as f32, b[1] as f32)) } else {
                if dot(n, dir).abs() < 0.05 { continue; }
                let ray = Ray { origin: p3(mad(p, dir, -5. * scale)), direction: v3(dir), t_max: INF };
                match s.intersect(&ray) { Some((h, _)) => h, None => continue }
            };
            let what = || format!("triangle {:?}, hit at {:?} (error {:?})", v, ap(h.p), a3(h.p_err));
            // the recorded error bound covers the distance from the true plane
            let (e, dev) = (a3(h.p_err), dot(n, sub(ap(h.p), v[0])).abs());
            if !(dev <= (0..3).map(|k| n[k].abs() * e[k]).sum::<f64>() * 1.001 + 1e-44) { cx.fail(format!("{}: the point is {:e} away from the triangle", what(), dev)); return; }
            for d in dirs.iter() {
                let r = h.spawn_ray(v3(*d));
                cx.evals(1);
                if !origin(&h, &r, *d, &what, cx) { return; }
                if s.intersect_p(&r) || s.intersect(&r).is_some() {
                    cx.fail(format!("{}: the ray {:?} + t {:?} spawned from it hits the triangle again at t = {:?}", what(), ap(r.origin), d, s.intersect(&r).map(|h| h.1)));
                    return;
                }
            }
            cx.nontrivials(dirs.len() as u64);
        }
        cx.sample(|| format!("triangle {:?}, direction {:?}", v, dir));
    });
    let spheres: [([f64; 3], f64); 12] = [([0., 0., 0.], 1.), ([2., -3., 1.], 1.), ([0.1, 0.2, 0.3], 0.01), ([-40., 30., 100.], 25.), ([0., 0., 0.], 1000.), ([1000., 500., -300.], 1.), ([5., 5., 5.], 0.5), ([-0.7, 1e4, 0.3], 1e4), ([300., 0., 0.1], 0.05), ([0., 0., 0.], 1e-7), ([0.01, 0., -0.02], 1e-4), ([0., 0., 0.], 1e8)];
    let np = c.pick(2500usize, 40000);
    c.family("sphere", "12 spheres at several sizes (radii 1e-7 to 1e8) and distances from the origin, hit from outside and inside at points all around; from each, rays all around, along the normal and in 384 grazing directions on both sides: outwards nothing, inwards only the far side is hit; non-trivial: rays spawned", (12 * 3 * np) as u64, |i, cx| {
        let mut d = Digits(i);
        let ((ce, r), mode, k) = (*d.of(&spheres), d.take(3), d.take(np));
        let s = Sphere::new(p3(ce), r as f32, Arc::new(NoMaterial));
        let (ce, r) = (ap(p3(ce)), r as f32 as f64);
        let w = if k < 6 { let mut w = [0.; 3]; w[k / 2] = if k % 2 == 0 { 1. } else { -1. }; w } else { fib(k, np) };
        // straight on, oblique, from the inside
        let off = unit(cross(w, [0.3, 0.5, -0.8]));
        let (o, dir) = match mode { 0 => (mad(ce, w, 4. * r), w.map(|x| -x)), 1 => (mad(mad(ce, w, 2.5 * r), off, 2. * r), unit(sub(w.map(|x| x), mad(w.map(|x| 2.5 * x), off, 2.)))), _ => (mad(ce, off, 0.3 * r), w) };
        let ray = Ray { origin: p3(o), direction: v3(dir), t_max: INF };
        let h = match s.intersect(&ray) { Some((h, _)) => h, None => return };
        let what = || format!("sphere {:?} radius {}, hit at {:?} (error {:?})", ce, r, ap(h.p), a3(h.p_err));
        let n = unit(sub(ap(h.p), ce));
        let (e, dev) = (a3(h.p_err), (len(sub(ap(h.p), ce)) - r).abs());
        if !(dev <= (0..3).map(|k| n[k].abs() * e[k]).sum::<f64>() * 1.001 + 1e-44) { cx.fail(format!("{}: the point is {:e} away from the sphere", what(), dev)); return; }
        for d in around(n, m).into_iter().map(|d| a3(v3(d))) {
            let q = h.spawn_ray(v3(d));
            cx.evals(1);
            if !origin(&h, &q, d, &what, cx) { return; }
            let again = s.intersect(&q);
            if again.is_some() != s.intersect_p(&q) { cx.fail(format!("{}: any-hit and closest-hit disagree on the ray {:?} + t {:?}", what(), ap(q.origin), d)); return; }
            // rounding of positions relative to the radius
            let e = 1e-6 * (1. + len(ce) / r);
            let cs = dot(n, d);
            // the chord through the sphere, seen from the hit point
            let chord = -2. * r * cs;
            match again {
                Some((_, t)) => if !((t as f64 - chord).abs() <= 8. * e * r + 3. * e * r / cs.abs().max(e.sqrt())) || (cs > e && t > 0.) {
                    cx.fail(format!("{}: the ray {:?} + t {:?} spawned from it (cosine {}) hits the sphere again at t = {}; the other side is at {}", what(), ap(q.origin), d, cs, t, chord));
                    return;
                },
                None => if cs < -2. * e.sqrt() {
                    cx.fail(format!("{}: the ray {:?} + t {:?} spawned into the sphere does not hit the far side at t = {}", what(), ap(q.origin), d, chord));
                    return;
                },
            }
        }
        cx.nontrivials(m as u64);
        cx.sample(|| what());
    });
    c.finish();
}
