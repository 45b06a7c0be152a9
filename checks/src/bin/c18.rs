//! C18: area lights emit on one side and report the density they sample with.
use checks::*;
use mc::num::*;
use mc::{Check, Digits, Level};
use pt::api::*;
use pt::bbox::BBox3f;
use pt::interaction::Interaction;
use pt::ray::Ray;
use pt::shape::Shape;
use std::sync::Arc;

const INF: f32 = f32::INFINITY;
type P = [f64; 3];
fn mad(o: P, d: P, t: f64) -> P { add(o, mul(d, t)) }
fn fib(k: usize, n: usize) -> P {
    let z = 1. - (2. * k as f64 + 1.) / n as f64;
    let ph = k as f64 * 2.39996322972865332;
    let s = (1. - z * z).sqrt();
    [s * ph.cos(), s * ph.sin(), z]
}
/// Barycentric coordinates of the point where the line p + t w meets the plane of v, and t.
fn meet(v: &[P; 3], p: P, w: P) -> ([f64; 3], f64) {
    let n = cross(sub(v[1], v[0]), sub(v[2], v[0]));
    let t = dot(n, sub(v[0], p)) / dot(n, w);
    (bary(v, mad(p, w, t)), t)
}
fn bary(v: &[P; 3], q: P) -> [f64; 3] {
    let n = cross(sub(v[1], v[0]), sub(v[2], v[0]));
    [0, 1, 2].map(|k| dot(cross(sub(v[(k + 2) % 3], v[(k + 1) % 3]), sub(q, v[(k + 1) % 3])), n) / dot(n, n))
}

/// A light source with answers of its own.
struct Own;
impl Shape for Own {
    fn bbox(&self) -> BBox3f { BBox3f::new(Point3f::new(0., 0., 0.), Point3f::new(1., 1., 1.)) }
    fn area(&self) -> f32 { 3. }
    fn intersect_p(&self, _: &Ray) -> bool { false }
    fn intersect(&self, _: &Ray) -> Option<(Interaction, f32)> { None }
    fn material(&self) -> Arc<dyn Material> { Arc::new(NoMaterial) }
    fn sample(&self, _: Point2f) -> Interaction { Default::default() }
    fn sample_ref(&self, i: &Interaction, s: Point2f) -> Interaction { Interaction { p: i.p + Vector3f::new(s.x, s.y, 2.), n: n3([0., 0., -1.]), ..Default::default() } }
    fn pdf(&self, _: &Interaction, wi: Vector3f) -> f32 { 0.25 + wi.x }
}

fn main() {
    let mut c = Check::new("C18", Level::Exploration);
    let l = Spectrum::new(2., 0.5, 7.);
    let shapes: [[P; 3]; 5] = [
        [[-0.5, -0.5, 0.], [0.5, -0.5, 0.], [-0.5, 0.5, 0.]],
        [[0.1, 0.2, 0.3], [0.9, -0.4, 0.77], [-0.3, 0.8, 0.5]],
        [[1., 0.3, -0.7], [-0.4, 0.2, 0.9], [-0.6, -0.7, 0.1]],
        [[0., 0., 0.], [3., 0.1, -0.2], [2.9, 0.33, 0.1]],
        [[-0.05, 0., 0.02], [0.03, 0.04, 0.], [0., -0.06, -0.01]],
    ];
    let places: [(P, f64); 5] = [([0., 0., 0.], 1.), ([20., -7., 30.], 1.), ([-100., 200., 50.], 80.), ([0., 0., 0.], 1e-5), ([0., 0., 0.], 1e5)];
    let perms = [[0, 1, 2], [1, 2, 0], [0, 2, 1]];
    let tri = |v: &[P; 3], mode: usize| -> Triangle {
        let n = norm(cross(sub(v[1], v[0]), sub(v[2], v[0])));
        let vn = match mode { 0 | 1 => None, 2 => Some(n), _ => Some(mul(n, -1.)) };
        Triangle::new(v.map(p3), vn.map(|n| [n3(n), n3(norm(add(n, [0.1, 0.2, -0.05]))), n3(n)]), mode == 1, Arc::new(NoMaterial))
    };
    let nd = c.pick(400usize, 5000);
    c.family("emission", "5 triangles x 5 places and sizes (1e-5 to 1e5) x 3 orders of corners x plain, reversed, with vertex normals along and against the winding; hit along 400 directions (thorough: 5000): the radiance towards the viewer and into all of 60 directions; and at sampled points, also almost along the surface (2e-5); non-trivial: lit", (5 * 5 * 3 * 4) as u64, |i, cx| {
        let mut d = Digits(i);
        let (sh, (at, sc), pm, mode) = (*d.of(&shapes), *d.of(&places), *d.of(&perms), d.take(4));
        let v = pm.map(|k| ap(p3(mad(at, sh[k], sc))));
        let face = mul(norm(cross(sub(v[1], v[0]), sub(v[2], v[0]))), if mode == 1 || mode == 3 { -1. } else { 1. });
        let light = AreaLight::new(l, tri(&v, mode));
        let mid = mul(add(add(v[0], v[1]), v[2]), 1. / 3.);
        let what = |h: &Interaction, w: P| format!("light {:?} mode {} facing {:?}, point {:?}, direction {:?}", v, mode, face, ap(h.p), w);
        let mut look = |h: &Interaction, w: P| -> bool {
            let k = dot(face, w);
            if k.abs() < 1e-5 { return true; }
            cx.evals(1);
            cx.nontrivials((k > 0.) as u64);
            let e = asp(light.l(h, v3(w)));
            let want = if k > 0. { asp(l) } else { [0.; 3] };
            if e != want { cx.fail(format!("{}: emits {:?}, expected {:?}", what(h, w), e, want)); return false; }
            true
        };
        for k in 0..nd {
            let w = fib(k, nd);
            if dot(w, face).abs() < 0.01 { continue; }
            let ray = Ray { origin: p3(mad(mid, w, -3. * sc)), direction: v3(w), t_max: INF };
            let h = match light.intersect(&ray) { Some((h, _)) => h, None => continue };
            if !look(&h, mul(w, -1.)) { return; }
            for j in 0..60 { if !look(&h, fib(j, 60)) { return; } }
            // as the renderer asks: at the hit, through the shape it carries
        }
        let across = norm(sub(v[1], v[0]));
        let along = cross(face, across);
        for k in 0..64 {
            let h = light.sample(Point2f::new((k % 8) as f32 / 8. + 0.06, (k / 8) as f32 / 8. + 0.03));
            for j in 0..60 { if !look(&h, fib(j, 60)) { return; } }
            // almost along the surface
            for j in 0..8 {
                let t = (k * 8 + j) as f64 * 0.7;
                let w = add(mul(across, t.cos()), mul(along, t.sin()));
                for e in [2e-5, 1e-4, 1e-3] { if !look(&h, mad(w, face, e)) || !look(&h, mad(w, face, -e)) { return; } }
            }
        }
        cx.sample(|| format!("light {:?} facing {:?}", v, face));
    });
    let m = c.pick(1024usize, 2048);
    let parts = 16usize;
    c.family("uniform", "5 triangles x 5 places and sizes (1e-5 to 1e5) x 3 orders of corners: the complete m x m lattice of sample numbers (m = 1024, thorough 2048; and a 64 x 64 one that includes 0), counted over the 256 congruent parts of the triangle; every sampled point is on the triangle; non-trivial: parts", (5 * 5 * 3) as u64, |i, cx| {
        let mut d = Digits(i);
        let (sh, (at, sc), pm) = (*d.of(&shapes), *d.of(&places), *d.of(&perms));
        let v = pm.map(|k| ap(p3(mad(at, sh[k], sc))));
        let light = AreaLight::new(l, tri(&v, 0));
        let reach = v.iter().map(|p| len(*p)).fold(0., f64::max);
        let small = len(cross(sub(v[1], v[0]), sub(v[2], v[0]))) / (0..3).map(|k| len(sub(v[k], v[(k + 1) % 3]))).fold(0., f64::max);
        let mut hist = vec![0f64; parts * parts * 2];
        for k in 0..m * m + 64 * 64 {
            // the middles of the lattice's cells are counted; the points of a coarser lattice with
            // the number 0 are only looked at
            let count = k < m * m;
            let at = |x: usize| if count { (x as f32 + 0.5) / m as f32 } else { x as f32 / 64. };
            let u = if count { Point2f::new(at(k % m), at(k / m)) } else { Point2f::new(at((k - m * m) % 64), at((k - m * m) / 64)) };
            let h = light.sample(u);
            let b = bary(&v, ap(h.p));
            let n = norm(cross(sub(v[1], v[0]), sub(v[2], v[0])));
            let tol = 1e-6 * reach / small + 1e-6;
            cx.evals(1);
            if !(dot(n, sub(ap(h.p), v[0])).abs() <= 1e-6 * reach + 1e-6 * sc) || !b.iter().all(|x| *x >= -tol) {
                cx.fail(format!("light {:?}, sample {:?}: the point {:?} is not on the triangle (barycentrics {:?})", v, u, ap(h.p), b));
                return;
            }
            let g = |x: f64| (x.max(0.) * parts as f64).min(parts as f64 - 1e-9);
            let (x, y) = (g(b[1]), g(b[2]));
            let up = x.fract() + y.fract() > 1.;
            if count { hist[(x as usize * parts + y as usize) * 2 + up as usize] += 1.; }
        }
        let per = (m * m) as f64 / (parts * parts) as f64;
        let mut total = 0;
        for x in 0..parts { for y in 0..parts { for up in 0..2 {
            if x + y + up >= parts { continue; }
            total += 1;
            let got = hist[(x * parts + y) * 2 + up] / per;
            cx.nontrivials(1);
            // lattice points on the border of a part: at most a few rows
            if !((got - 1.).abs() <= 12. * parts as f64 / m as f64 * 0.5) {
                cx.fail(format!("light {:?}: the part {:?} of 256 equal parts receives {} times its share of the samples", v, (x, y, up), got));
                return;
            }
        } } }
        if total != parts * parts { cx.fail("internal: parts"); }
        let ar = len(cross(sub(v[1], v[0]), sub(v[2], v[0]))) / 2.;
        if rel(light.area() as f64, ar) > 1e-4 { cx.fail(format!("light {:?}: area {} instead of {}", v, light.area(), ar)); }
        cx.sample(|| format!("light {:?}", v));
    });
    // receivers at lattice positions around the light, with the error bounds of real hits
    let rv: Vec<P> = { let mut r = vec![]; for x in [-2., -0.3, 1.2] { for y in [-1.7, 0.1, 2.5] { for z in [-3., -0.6, 0.45, 1.9] { r.push([x, y, z]); } } } r };
    let g = c.pick(24usize, 80);
    let dirs = c.pick(2000usize, 20000);
    let fine = c.pick(300usize, 1200);
    c.family("density", "5 triangles x 5 places and sizes (1e-5 to 1e5) x 3 orders x 4 orientations, receivers at 36 lattice positions: for a g x g lattice of samples (g = 24, thorough 80) the direction, the density from the squared distance, cosine and area, and the same density for the given direction; for 2000 directions (thorough 20000) around the receiver density or zero as the light is hit or missed; integral of the density over a fine grid around the light; non-trivial: directions that reach the light", (5 * 5 * 3 * 4 * rv.len()) as u64, |i, cx| {
        let mut d = Digits(i);
        let (sh, (at, sc), pm, mode, r) = (*d.of(&shapes), *d.of(&places), *d.of(&perms), d.take(4), *d.of(&rv));
        let v = pm.map(|k| ap(p3(mad(at, sh[k], sc))));
        let face = mul(norm(cross(sub(v[1], v[0]), sub(v[2], v[0]))), if mode == 1 || mode == 3 { -1. } else { 1. });
        let area = len(cross(sub(v[1], v[0]), sub(v[2], v[0]))) / 2.;
        let light = AreaLight::new(l, tri(&v, mode));
        let pw = mad(at, r, sc);
        // the surface of the receiver passes through it
        let rn = norm(sub(mul(add(add(v[0], v[1]), v[2]), 1. / 3.), pw));
        let refi = Interaction { p: p3(pw), p_err: v3(mul([pw[0].abs(), pw[1].abs(), pw[2].abs()], 4e-7)), n: n3(rn), sn: n3(rn), ..Default::default() };
        let p = ap(refi.p);
        let what = || format!("light {:?} mode {}, receiver {:?}", v, mode, p);
        let height = dot(face, sub(p, v[0])).abs();
        if height < 0.02 * sc { return; }
        let reach = v.iter().map(|q| len(*q)).fold(len(p), f64::max);
        let density = |q: P| -> f64 { let w = sub(q, p); dot(w, w) / (dot(face, norm(w)).abs() * area) };
        let tol = 2e-3 + 40. * 1e-6 * reach / height;
        for k in 0..g * g {
            let u = Point2f::new((k % g) as f32 / g as f32 + 0.02 / g as f32, ((k / g) as f32 + 0.37) / g as f32);
            let (wi, li, pdf, _) = Light::sample_li(&light, &refi, u);
            let q = ap(light.sample(u).p);
            let w = norm(sub(q, p));
            cx.evals(1);
            if !close(a3(wi), w, 1e-5 + 4e-7 * reach / height) { cx.fail(format!("{}, sample {:?}: direction {:?}, the sampled point {:?} is in direction {:?}", what(), u, a3(wi), q, w)); return; }
            let want = if dot(face, w) < 0. { asp(l) } else { [0.; 3] };
            if asp(li) != want { cx.fail(format!("{}, sample {:?}: the light at {:?} is {:?}, expected {:?}", what(), u, q, asp(li), want)); return; }
            let b = bary(&v, q);
            let border = b.iter().any(|x| *x < 1e-3 + 1e-5 * reach / (sc * 0.05));
            let given = Light::pdf_li(&light, &refi, wi);
            if border && (pdf == 0. || given == 0.) { continue; }
            if !(rel(pdf as f64, density(q)) <= tol) { cx.fail(format!("{}, sample {:?} at {:?}: density {}, expected {}", what(), u, q, pdf, density(q))); return; }
            if !(rel(given as f64, pdf as f64) <= 1e-4) { cx.fail(format!("{}: density {} for the sampled direction {:?}, {} for the given one", what(), pdf, a3(wi), given)); return; }
            cx.nontrivials(1);
        }
        for k in 0..dirs {
            let w = a3(v3(fib(k, dirs)));
            let (b, t) = meet(&v, p, w);
            let m = b.iter().cloned().fold(1., f64::min);
            let f = Light::pdf_li(&light, &refi, v3(w)) as f64;
            cx.evals(1);
            if dot(face, w).abs() < 0.01 || m.abs() < 1e-3 + 1e-5 * reach / (sc * 0.05) { continue; }
            if m < 0. || t < 0. {
                if f != 0. { cx.fail(format!("{}: density {} for the direction {:?}, which misses the light", what(), f, w)); return; }
            } else if !(rel(f, density(mad(p, w, t))) <= tol) {
                cx.fail(format!("{}: density {} for the direction {:?}, expected {}", what(), f, w, density(mad(p, w, t))));
                return;
            }
        }
        // the integral over a square window around the light, on the plane at distance one
        let (u1, u2) = { let u = norm(cross(rn, if rn[0].abs() < 0.6 { [1., 0., 0.] } else { [0., 1., 0.] })); (u, cross(rn, u)) };
        let pr: Vec<[f64; 2]> = v.iter().map(|q| { let w = sub(*q, p); let z = dot(w, rn); [dot(w, u1) / z, dot(w, u2) / z] }).collect();
        if v.iter().any(|q| dot(sub(*q, p), rn) < 0.1 * sc) { return; }
        let (x0, x1) = (pr.iter().map(|q| q[0]).fold(f64::MAX, f64::min), pr.iter().map(|q| q[0]).fold(f64::MIN, f64::max));
        let (y0, y1) = (pr.iter().map(|q| q[1]).fold(f64::MAX, f64::min), pr.iter().map(|q| q[1]).fold(f64::MIN, f64::max));
        // how much of the window the light fills: a sliver leaves the sum too coarse
        let fill = ((pr[1][0] - pr[0][0]) * (pr[2][1] - pr[0][1]) - (pr[2][0] - pr[0][0]) * (pr[1][1] - pr[0][1])).abs() / 2. / ((x1 - x0) * (y1 - y0));
        if fill < 0.1 { return; }
        let mut sum = 0.;
        for a in 0..fine { for b in 0..fine {
            let (x, y) = (x0 + (a as f64 + 0.5) / fine as f64 * (x1 - x0), y0 + (b as f64 + 0.5) / fine as f64 * (y1 - y0));
            let w = norm(mad(mad(rn, u1, x), u2, y));
            let z = dot(w, rn);
            sum += Light::pdf_li(&light, &refi, v3(w)) as f64 * z * z * z;
        } }
        sum *= (x1 - x0) * (y1 - y0) / (fine * fine) as f64;
        cx.evals((fine * fine) as u64);
        if (sum - 1.).abs() > 0.03 + tol { cx.fail(format!("{}: the density integrates to {}", what(), sum)); return; }
        cx.sample(|| format!("{}: the density integrates to {:.4}", what(), sum));
    });
    // receivers from which the light is tiny
    let far: &[f64] = &[100., 1000., 3000.];
    c.family("far receivers", "the triangles and orientations of the former families, in 3 sizes around the origin, receivers 100 to 3000 sizes away in 40 directions: for an 8 x 8 lattice of samples the density of the sampled direction and of the given one, from the squared distance, cosine and area, and none beside the light; non-trivial: all", (5 * 3 * 4 * far.len()) as u64, |i, cx| {
        let mut d = Digits(i);
        let (sh, sc, mode, away) = (*d.of(&shapes), *d.of(&[1., 0.01, 500.]), d.take(4), *d.of(far));
        let v = sh.map(|q| ap(p3(mul(q, sc))));
        let g = cross(sub(v[1], v[0]), sub(v[2], v[0]));
        let face = mul(norm(g), if mode == 1 || mode == 3 { -1. } else { 1. });
        let area = len(g) / 2.;
        let size = (0..3).map(|k| len(sub(v[k], v[(k + 1) % 3]))).fold(0., f64::max);
        // how far a point is from the edges, against its barycentric coordinates
        let slim = 2. * area / (size * size);
        let light = AreaLight::new(l, tri(&v, mode));
        let mid = mul(add(add(v[0], v[1]), v[2]), 1. / 3.);
        for k in 0..40 {
            let w = fib(k, 40);
            if dot(w, face).abs() < 0.1 { continue; }
            let pw = mad(mid, w, away * size);
            let refi = Interaction { p: p3(pw), p_err: v3(mul([pw[0].abs(), pw[1].abs(), pw[2].abs()], 2e-7)), n: n3(mul(w, -1.)), sn: n3(mul(w, -1.)), ..Default::default() };
            let p = ap(refi.p);
            for j in 0..64 {
                let u = Point2f::new((j % 8) as f32 / 8. + 0.06, (j / 8) as f32 / 8. + 0.05);
                let q = ap(light.sample(u).p);
                if bary(&v, q).iter().any(|x| *x < 3e-6 * away / (slim * 0.1)) { continue; }
                let dir = sub(q, p);
                let want = dot(dir, dir) / (dot(face, norm(dir)).abs() * area);
                let (wi, li, pdf, _) = Light::sample_li(&light, &refi, u);
                let given = Light::pdf_li(&light, &refi, wi);
                cx.evals(1);
                cx.nontrivial();
                let e = if dot(face, dir) < 0. { asp(l) } else { [0.; 3] };
                if asp(li) != e || !(rel(pdf as f64, want) < 3e-3) || !(rel(given as f64, want) < 3e-3) { cx.fail(format!("light {:?} mode {}, receiver {:?}, sample {:?}: radiance {:?}, density {}, for the given direction {}, expected {:?} and {}", v, mode, p, u, asp(li), pdf, given, e, want)); return; }
                // the same way past the light
                let beside = norm(mad(dir, cross(norm(dir), face), 2. * size / dot(norm(dir), face).abs().max(0.1)));
                if dot(cross(norm(dir), face), cross(norm(dir), face)) > 0.05 {
                    let (b, _) = meet(&v, p, a3(v3(beside)));
                    if b.iter().any(|x| *x < -0.05) && Light::pdf_li(&light, &refi, v3(beside)) != 0. { cx.fail(format!("light {:?}, receiver {:?}: a density for the direction {:?}, which misses the light", v, p, beside)); return; }
                }
            }
        }
        cx.sample(|| format!("light {:?} from {} sizes away", v, away));
    });
    c.family("shapes with a density of their own", "a light shape that overrides reference sampling and density, 9 positions x 16 samples: the light reports exactly what the shape says; non-trivial: all", 9, |i, cx| {
        let light = AreaLight::new(l, Own);
        let refi = Interaction { p: p3([i as f64, -(i as f64) * 0.5, 3.]), n: n3([0., 0., 1.]), sn: n3([0., 0., 1.]), ..Default::default() };
        for k in 0..16 {
            let u = Point2f::new((k % 4) as f32 * 0.2, (k / 4) as f32 * 0.2);
            let (wi, li, pdf, _) = Light::sample_li(&light, &refi, u);
            let w = norm([u.x as f64, u.y as f64, 2.]);
            cx.evals(1);
            cx.nontrivials(1);
            if !close(a3(wi), w, 1e-5) || asp(li) != asp(l) || !((pdf as f64 - 0.25 - w[0]).abs() <= 1e-5) || !((Light::pdf_li(&light, &refi, wi) as f64 - 0.25 - w[0]).abs() <= 1e-5) || light.is_delta() {
                cx.fail(format!("sample {:?}: direction {:?}, radiance {:?}, densities {} and {}", u, wi, li, pdf, Light::pdf_li(&light, &refi, wi)));
                return;
            }
        }
        cx.sample(|| format!("receiver {:?}", refi.p));
    });
    c.finish();
}
