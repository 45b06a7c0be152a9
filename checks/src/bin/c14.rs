//! C14: triangle hits are exact, any-hit agrees, meshes have no cracks.
use checks::*;
use mc::{Check, Cx, Digits, Level};
use pt::api::*;
use pt::ray::Ray;
use pt::shape::Shape;
use std::sync::Arc;

const INF: f32 = f32::INFINITY;
/// Heights above the triangle, relative to its longest side, from which a hit has to be told from rounding.
const NEAR: f64 = 4e-5;
type I3 = [i64; 3];
fn isub(a: I3, b: I3) -> I3 { [a[0] - b[0], a[1] - b[1], a[2] - b[2]] }
fn icross(a: I3, b: I3) -> I3 { [a[1] * b[2] - a[2] * b[1], a[2] * b[0] - a[0] * b[2], a[0] * b[1] - a[1] * b[0]] }
fn idot(a: I3, b: I3) -> i64 { a[0] * b[0] + a[1] * b[1] + a[2] * b[2] }
fn sub(a: [f64; 3], b: [f64; 3]) -> [f64; 3] { [a[0] - b[0], a[1] - b[1], a[2] - b[2]] }
fn cross(a: [f64; 3], b: [f64; 3]) -> [f64; 3] { [a[1] * b[2] - a[2] * b[1], a[2] * b[0] - a[0] * b[2], a[0] * b[1] - a[1] * b[0]] }
fn dot(a: [f64; 3], b: [f64; 3]) -> f64 { a[0] * b[0] + a[1] * b[1] + a[2] * b[2] }
fn len(a: [f64; 3]) -> f64 { dot(a, a).sqrt() }
fn mad(o: [f64; 3], d: [f64; 3], t: f64) -> [f64; 3] { [o[0] + t * d[0], o[1] + t * d[1], o[2] + t * d[2]] }

fn tri(v: &[[f64; 3]; 3]) -> Triangle { Triangle::new([p3(v[0]), p3(v[1]), p3(v[2])], None, false, Arc::new(NoMaterial)) }

/// What is expected of a ray: a hit with parameter and barycentrics, or none; `edge`: rounding may decide.
struct Want { t: f64, b: [f64; 3], hit: bool, edge: bool }

fn compare(s: &dyn Shape, v: &[[f64; 3]; 3], ray: &Ray, w: &Want, rel: f64, cx: &mut Cx) -> bool {
    let what = || format!("triangle {:?}, ray {:?} + t {:?}, t < {:e}", v, ap(ray.origin), a3(ray.direction), ray.t_max);
    let any = s.intersect_p(ray);
    let hit = s.intersect(ray);
    cx.evals(1);
    if any != hit.is_some() {
        cx.fail(format!("{}: the any-hit query answers {}, the closest-hit query {}", what(), any, hit.as_ref().map_or("no hit".to_string(), |h| format!("t = {}", h.1))));
        return false;
    }
    let (i, t) = match hit {
        None => {
            if w.hit && !w.edge { cx.fail(format!("{}: no hit is reported, there is one at t = {}, barycentrics {:?}", what(), w.t, w.b)); }
            return false;
        }
        Some(h) => h,
    };
    if !w.hit && !w.edge {
        cx.fail(format!("{}: a hit at t = {} is reported, the plane is met at t = {}, barycentrics {:?}", what(), t, w.t, w.b));
        return true;
    }
    if !(t > 0. && t <= ray.t_max) {
        cx.fail(format!("{}: the hit at t = {} is out of range", what(), t));
        return true;
    }
    let (o, d) = (ap(ray.origin), a3(ray.direction));
    let size = v.iter().map(|p| len(sub(*p, o))).fold(0., f64::max);
    let room = v.iter().map(|p| len(*p)).fold(0., f64::max);
    if (t as f64 - w.t).abs() * len(d) > rel * size {
        cx.fail(format!("{}: the hit is reported at t = {}, it is at {}", what(), t, w.t));
        return true;
    }
    let p = ap(i.p);
    if !(len(sub(p, mad(o, d, w.t))) <= 2. * rel * (size + room)) {
        cx.fail(format!("{}: the hit is reported at {:?}, it is at {:?}", what(), p, mad(o, d, w.t)));
        return true;
    }
    // the corners carry (0, 0), (1, 0), (1, 1)
    let (e0, e1) = (v[1], v[2]);
    let small = len(sub(e0, v[0])).min(len(sub(e1, v[0]))).min(len(sub(e0, e1)));
    let tol = 1e-5 + 8. * rel * (size + room) / small;
    let uv = (i.uv.x as f64, i.uv.y as f64);
    if !((uv.0 - (w.b[1] + w.b[2])).abs() <= tol && (uv.1 - w.b[2]).abs() <= tol) {
        cx.fail(format!("{}: the hit has position {:?} on the triangle, expected {:?}", what(), uv, (w.b[1] + w.b[2], w.b[2])));
        return true;
    }
    let wo = a3(i.wo);
    if len(mad(wo, d, 1.)) > 1e-6 * len(d) { cx.fail(format!("{}: the outgoing direction is {:?}", what(), wo)); }
    true
}

fn main() {
    let mut c = Check::new("C14", Level::Exploration);
    // all triangles with corners in {0, 1, 2}^3, exact
    let g: Vec<I3> = (0..27).map(|i| [2 * (i % 3), 2 * (i / 3 % 3), 2 * (i / 9)]).collect();
    let mut tris = Vec::new();
    for a in g.iter() { for b in g.iter() { for k in g.iter() {
        if icross(isub(*b, *a), isub(*k, *a)) != [0, 0, 0] { tris.push([*a, *b, *k]); }
    } } }
    let ov: Vec<i64> = if c.thorough() { vec![-6, -2, 0, 1, 2, 3, 4, 7] } else { vec![-2, 1, 2, 7] };
    let dv: Vec<i64> = vec![-2, -1, 0, 1, 2];
    let mut origins = Vec::new();
    for x in ov.iter() { for y in ov.iter() { for z in ov.iter() { origins.push([*x, *y, *z]); } } }
    let mut dirs = Vec::new();
    for x in dv.iter() { for y in dv.iter() { for z in dv.iter() { if (*x, *y, *z) != (0, 0, 0) { dirs.push([*x, *y, *z]); } } } }
    let ts: [(f32, i64, i64); 3] = [(INF, 1 << 40, 1), (1., 2, 1), (0.375, 3, 4)]; // as a fraction in half units
    // corners and origins times 2^k, directions times 2^j: the same decisions
    let lattice = |t: &[I3; 3], k: i32, j: i32, cx: &mut Cx| {
        let (sk, sj) = (2f64.powi(k - 1), 2f64.powi(j));
        let v = [0, 1, 2].map(|a| t[a].map(|x| x as f64 * sk));
        let s = tri(&v);
        let n = icross(isub(t[1], t[0]), isub(t[2], t[0]));
        let mut hits = 0;
        for o in origins.iter() {
            let q = [0, 1, 2].map(|k| isub(t[k], *o));
            let vol = idot(n, q[0]);
            let cr = [icross(q[1], q[2]), icross(q[2], q[0]), icross(q[0], q[1])];
            for d in dirs.iter() {
                let den = idot(n, *d);
                let mut e = cr.map(|x| idot(x, *d));
                let (mut num, mut dd) = (vol, den);
                if den < 0 { num = -num; dd = -dd; e = e.map(|x| -x); }
                for (tm, tn, td) in ts.iter() {
                    // t in half units: num / dd; range tn / td
                    let w = if dd == 0 { Want { t: 0., b: [0.; 3], hit: false, edge: false } } else {
                        let inside = e.iter().all(|x| *x >= 0);
                        let edge = inside && e.iter().any(|x| *x == 0);
                        let before = num * td < tn * dd || *tm == INF;
                        let end = num * td == tn * dd && *tm != INF;
                        let bs: i64 = e.iter().sum();
                        Want { t: num as f64 / dd as f64 * sk / sj, b: e.map(|x| x as f64 / bs as f64), hit: inside && num > 0 && before, edge: num > 0 && ((edge && (before || end)) || (inside && end)) }
                    };
                    let ray = Ray { origin: p3(o.map(|x| x as f64 * sk)), direction: v3(d.map(|x| x as f64 * sj)), t_max: *tm * (2. * sk / sj) as f32 };
                    hits += compare(&s, &v, &ray, &w, 1e-6, cx) as u64;
                    if cx.failed() { return; }
                }
            }
        }
        cx.nontrivials(hits);
        cx.sample(|| format!("triangle {:?}: {} hits", v, hits));
    };
    c.family("lattice", "every non-degenerate triangle with corners in {0,1,2}^3 in every order, origins on a lattice around and in it, directions with components in -2..2, range infinite, 1 and 3/8; decided in integers; only rays exactly through an edge or ending exactly on the triangle are left open; non-trivial: hits", tris.len() as u64, |i, cx| lattice(&tris[i as usize], 0, 0, cx));
    let small: Vec<[I3; 3]> = tris.iter().filter(|t| t.iter().all(|p| p.iter().all(|x| *x <= 2))).cloned().collect();
    let ex: Vec<i32> = c.pick(vec![-24, -12, 0, 12, 24], vec![-24, -18, -12, -6, 0, 6, 12, 18, 24]);
    c.family("scales", "every non-degenerate triangle with corners in {0,1}^3 in every order, at sizes 2^-24 to 2^24, the lattice of rays scaled with it, directions of lengths 2^-24 to 2^24; non-trivial: hits", (small.len() * ex.len() * ex.len()) as u64, |i, cx| {
        let mut d = Digits(i);
        let (t, k, j) = (*d.of(&small), *d.of(&ex), *d.of(&ex));
        lattice(&t, k, j, cx);
    });
    // rays that begin close to the triangle, in front of it and behind it
    c.family("close", "every non-degenerate triangle with corners in {0,1,2}^3, rays along the 124 lattice directions that begin 2^-1 to 2^-20 times the direction before or behind three inner points: hit from before (from 4e-5 of the longest side on), never from behind; non-trivial: hits", tris.len() as u64, |i, cx| {
        let t = &tris[i as usize];
        let v = [0, 1, 2].map(|a| t[a].map(|x| x as f64 / 2.));
        let s = tri(&v);
        let n = icross(isub(t[1], t[0]), isub(t[2], t[0]));
        let nn = len(n.map(|x| x as f64));
        let longest = (0..3).map(|q| len(sub(v[q], v[(q + 1) % 3]))).fold(0., f64::max);
        let mut hits = 0;
        for b in [[0.5, 0.25, 0.25], [0.25, 0.5, 0.25], [0.25, 0.25, 0.5]] {
            let q = [0, 1, 2].map(|a| b[0] * v[0][a] + b[1] * v[1][a] + b[2] * v[2][a]);
            for d in dirs.iter() {
                if idot(n, *d) == 0 { continue; }
                let df = d.map(|x| x as f64);
                let cos = (idot(n, *d) as f64 / nn / len(df)).abs();
                for k in 1..=20 {
                    for sg in [-1., 1.] {
                        let o = mad(q, df, sg * 2f64.powi(-k));
                        let ray = Ray { origin: p3(o), direction: v3(df), t_max: INF };
                        if ap(ray.origin) != o { cx.fail("internal: origin"); return; }
                        let hit = sg < 0.;
                        // closer than rounding can tell
                        let edge = hit && 2f64.powi(-k) * len(df) * cos < NEAR * longest;
                        let w = Want { t: 2f64.powi(-k), b, hit, edge };
                        hits += compare(&s, &v, &ray, &w, 1e-6 / cos, cx) as u64;
                        if cx.failed() { return; }
                    }
                }
            }
        }
        cx.nontrivials(hits);
        cx.sample(|| format!("triangle {:?}: {} hits", v, hits));
    });
    // other sizes, shapes and places; rays aimed at a grid of barycentric coordinates
    let shapes: [[[f64; 3]; 3]; 6] = [
        [[0., 0., 0.], [1., 0., 0.], [0., 1., 0.]],
        [[0.1, 0.2, 0.3], [0.9, -0.4, 0.77], [-0.3, 0.8, 0.5]],
        [[1., 1., 1.], [1.1, 1.7, 0.2], [0.3, 1.3, 2.2]],
        [[0., 0., 0.], [3., 0.1, -0.2], [2.9, 0.33, 0.1]],
        [[-1., 0.5, 0.3], [0.2, -1., 0.4], [0.3, 0.1, -1.]],
        [[0., 0.3, 5.], [0., -0.7, 5.1], [0., 0.1, 3.9]],
    ];
    let places: [([f64; 3], f64); 5] = [([0., 0., 0.], 1.), ([30., -20., 7.], 1.), ([0.5, 0.25, -1.], 1e-2), ([-100., 300., 20.], 500.), ([1e4, 1e4, -2e4], 1e4)];
    let bary: Vec<f64> = if c.thorough() { (-5..=15).map(|k| k as f64 * 0.1 + 0.013).collect() } else { (-3..=9).map(|k| k as f64 * 0.17 + 0.013).collect() };
    let nd = c.pick(60usize, 400);
    let dists = [0.1, 1., 7., 60.];
    c.family("aimed", "6 triangles at 5 places and sizes in every order of corners, rays from directions spread over the sphere, 4 distances, aimed at a grid of barycentric coordinates inside and outside; range infinite and ending shortly before and after the triangle, and pointing away; non-trivial: hits", (6 * 5 * 6 * 4 * nd) as u64, |i, cx| {
        let mut d = Digits(i);
        let (sh, (at, scale), perm, dist, k) = (*d.of(&shapes), *d.of(&places), *d.of(&[[0, 1, 2], [1, 2, 0], [2, 0, 1], [0, 2, 1], [2, 1, 0], [1, 0, 2]]), *d.of(&dists), d.take(nd));
        let v0 = perm.map(|q| [0, 1, 2].map(|a| sh[q][a] * scale + at[a]));
        let s = tri(&v0);
        let v = v0.map(|p| ap(p3(p)));
        let n = cross(sub(v[1], v[0]), sub(v[2], v[0]));
        let z = 1. - (2. * k as f64 + 1.) / nd as f64;
        let ph = k as f64 * 2.399963;
        let dir = [(1. - z * z).sqrt() * ph.cos(), (1. - z * z).sqrt() * ph.sin(), z];
        let cosn = dot(n, dir) / len(n);
        if cosn.abs() < 0.02 { return; }
        let mut hits = 0;
        for b0 in bary.iter() { for b1 in bary.iter() {
            let b = [*b0, *b1, 1. - b0 - b1];
            let target = [0, 1, 2].map(|a| b[0] * v[0][a] + b[1] * v[1][a] + b[2] * v[2][a]);
            for (sgn, len_d) in [(1., 1.), (1., 0.01), (-1., 1.)] {
                let ray0 = Ray { origin: p3(mad(target, dir, -dist * scale)), direction: v3(dir.map(|x| x * sgn * len_d)), t_max: INF };
                let (o, dd) = (ap(ray0.origin), a3(ray0.direction));
                // where it really crosses
                let t = dot(n, sub(v[0], o)) / dot(n, dd);
                let p = mad(o, dd, t);
                let nn = dot(n, n);
                let bb = [dot(cross(sub(v[2], v[1]), sub(p, v[1])), n) / nn, dot(cross(sub(v[0], v[2]), sub(p, v[2])), n) / nn, dot(cross(sub(v[1], v[0]), sub(p, v[0])), n) / nn];
                let size = v.iter().map(|q| len(sub(*q, o))).fold(0., f64::max) + v.iter().map(|q| len(*q)).fold(0., f64::max);
                // rounding in terms of barycentrics: displacement over the smallest height
                let longest = (0..3).map(|q| len(sub(v[q], v[(q + 1) % 3]))).fold(0., f64::max);
                let margin = 1e-6 * size / (len(n) / longest) / cosn.abs();
                let inside = bb.iter().all(|x| *x >= 0.);
                let edge = bb.iter().all(|x| *x >= -margin) && bb.iter().any(|x| x.abs() <= margin);
                let rel = 1e-6 / cosn.abs();
                for f in [f64::INFINITY, 1.01, 0.99] {
                    let ray = Ray { t_max: (t.abs() * f) as f32, ..ray0.clone() };
                    let inr = t > 0. && f > 1.;
                    let w = Want { t, b: bb, hit: inside && inr, edge: edge && inr };
                    hits += compare(&s, &v, &ray, &w, rel, cx) as u64;
                    if cx.failed() { return; }
                }
            }
        } }
        cx.nontrivials(hits);
        cx.sample(|| format!("triangle {:?}, direction {:?}: {} hits", v, dir, hits));
    });
    // closed meshes: a ray from inside hits at least one triangle, in any direction
    let meshes: Vec<(&str, Vec<[f64; 3]>, Vec<[usize; 3]>)> = vec![
        ("octahedron", vec![[1., 0., 0.], [-1., 0., 0.], [0., 1., 0.], [0., -1., 0.], [0., 0., 1.], [0., 0., -1.]],
            vec![[0, 2, 4], [1, 2, 4], [0, 3, 4], [1, 3, 4], [0, 2, 5], [1, 2, 5], [0, 3, 5], [1, 3, 5]]),
        ("tetrahedron", vec![[1., 1., 1.], [-1., -1., 1.], [-1., 1., -1.], [1., -1., -1.]], vec![[0, 1, 2], [0, 3, 1], [0, 2, 3], [1, 2, 3]]),
        ("cube", (0..8).map(|k| [(k & 1) as f64 * 2. - 1., (k >> 1 & 1) as f64 * 2. - 1., (k >> 2) as f64 * 2. - 1.]).collect(),
            vec![[0, 1, 3], [0, 3, 2], [4, 7, 5], [4, 6, 7], [0, 5, 1], [0, 4, 5], [2, 3, 7], [2, 7, 6], [0, 2, 6], [0, 6, 4], [1, 7, 3], [1, 5, 7]]),
    ];
    let maps: Vec<([[f64; 3]; 3], [f64; 3])> = vec![
        ([[1., 0., 0.], [0., 1., 0.], [0., 0., 1.]], [0., 0., 0.]),
        ([[0.7, 0.2, -0.31], [0.11, 1.3, 0.4], [0.2, -0.6, 0.9]], [0.3, 0.1, 0.77]),
        ([[3.1, 0.9, 0.2], [-1.4, 2.2, 0.6], [0.3, -0.2, 4.1]], [-17.3, 5.9, 101.7]),
    ];
    let st = c.pick(24i64, 120);
    c.family("closed meshes", "octahedron, tetrahedron and cube, plain, sheared and moved far; from 3 points inside, rays at a lattice of points on every edge of the mesh, on every corner and over every face, as floats: at least one triangle is hit; non-trivial: rays aimed at edges and corners", (meshes.len() * maps.len() * 3) as u64 * st as u64, |i, cx| {
        let mut d = Digits(i);
        let ((name, verts, idx), (m, at), inner, step) = (d.of(&meshes), d.of(&maps), d.take(3), d.take(st as usize));
        let put = |p: [f64; 3]| [0, 1, 2].map(|r| m[r][0] * p[0] + m[r][1] * p[1] + m[r][2] * p[2] + at[r]);
        let vs: Vec<_> = verts.iter().map(|p| p3(put(*p))).collect();
        let v64: Vec<[f64; 3]> = vs.iter().map(|p| ap(*p)).collect();
        let tris = Triangle::new_triangle_mesh(vs.clone().into_boxed_slice(), idx.clone().into_boxed_slice(), None, None, Arc::new(NoMaterial));
        if tris.len() != idx.len() { cx.fail(format!("{}: {} triangles for {} index triples", name, tris.len(), idx.len())); return; }
        let o = p3(put([[0., 0., 0.], [0.125, -0.0625, 0.03125], [-0.07, 0.11, 0.053]][inner]));
        let s = step as f64 / (st - 1) as f64;
        let mut aim = Vec::new();
        for t in idx.iter() {
            for e in 0..3 {
                let (a, b) = (v64[t[e]], v64[t[(e + 1) % 3]]);
                aim.push(mad(a, sub(b, a), s));
                for k in 0..8 {
                    let q = v64[t[(e + 2) % 3]];
                    aim.push(mad(mad(a, sub(b, a), s), sub(q, a), k as f64 * 0.05));
                }
            }
        }
        for (k, a) in aim.iter().enumerate() {
            if k % 9 == 0 { cx.nontrivials(1); }
            for f in [1f64, 0.37] {
                let ray = Ray { origin: o, direction: v3(sub(*a, ap(o)).map(|x| x * f)), t_max: INF };
                let n = tris.iter().filter(|t| t.intersect(&ray).is_some()).count();
                let m = tris.iter().filter(|t| t.intersect_p(&ray)).count();
                cx.evals(1);
                if n == 0 || m != n { cx.fail(format!("{} {:?}: the ray {:?} + t {:?} from inside hits {} triangles (any-hit query: {})", name, v64, ap(o), a3(ray.direction), n, m)); return; }
            }
        }
        cx.sample(|| format!("{} moved to {:?}, step {}", name, at, step));
    });
    c.finish();
}
