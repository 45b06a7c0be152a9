//! C12: box operations are exact on points and conservative on rays.
use checks::*;
use mc::{Check, Cx, Digits, Level};
use pt::axis::Axis;
use pt::bbox::{BBox2i, BBox3f};
use pt::ray::Ray;
use pt::vector::*;

const INF: f32 = f32::INFINITY;

/// The parameters at which o + t d lies in [lo, hi]; None when never.
fn slab(lo: f64, hi: f64, o: f64, d: f64) -> Option<(f64, f64)> {
    if d == 0. { return if lo <= o && o <= hi { Some((f64::NEG_INFINITY, f64::INFINITY)) } else { None }; }
    let (a, b) = ((lo - o) / d, (hi - o) / d);
    Some((a.min(b), a.max(b)))
}

fn ray_case(iv: [(f32, f32); 3], o: [f32; 3], d: [f32; 3], t_max: f32, flip: bool, cx: &mut Cx) {
    let (lo, hi) = (Point3f::new(iv[0].0, iv[1].0, iv[2].0), Point3f::new(iv[0].1, iv[1].1, iv[2].1));
    let b = if flip { BBox3f::new(hi, lo) } else { BBox3f::new(lo, hi) };
    let ray = Ray { origin: Point3f::new(o[0], o[1], o[2]), direction: Vector3f::new(d[0], d[1], d[2]), t_max };
    let mut want = Some((0f64, t_max as f64));
    for a in 0..3 {
        want = match (want, slab(iv[a].0 as f64, iv[a].1 as f64, o[a] as f64, d[a] as f64)) {
            (Some((x, y)), Some((u, v))) => Some((x.max(u), y.min(v))),
            _ => None,
        };
    }
    let want = want.filter(|(a, b)| a <= b);
    let got = b.intersect(&ray);
    if want.is_some() { cx.nontrivials(1); }
    let what = || format!("box {:?}, ray {:?} + t {:?}, t <= {:e}", iv, o, d, t_max);
    match (want, got) {
        (None, None) => (),
        (Some(w), None) => cx.fail(format!("{}: no intersection reported, there is one for t in {:?}", what(), w)),
        (None, Some(g)) => cx.fail(format!("{}: reported for t in {:?}, there is none", what(), g)),
        (Some(w), Some(g)) => {
            let (g0, g1) = (g.0 as f64, g.1 as f64);
            let ok0 = g0 <= w.0 * (1. + 1e-7) && g0 >= w.0 * (1. - 1e-6);
            let ok1 = if w.1.is_infinite() { g1 == w.1 } else { g1 >= w.1 * (1. - 1e-7) && g1 <= w.1 * (1. + 2e-6) };
            if !ok0 || !ok1 { cx.fail(format!("{}: reported for t in {:?}, exactly {:?}", what(), g, w)); }
        }
    }
}

fn intervals(v: &[f32]) -> Vec<(f32, f32)> { v.iter().flat_map(|a| v.iter().filter(move |b| *b >= a).map(move |b| (*a, *b))).collect() }

fn main() {
    let mut c = Check::new("C12", Level::Exploration);
    let th = c.thorough();
    let iv = intervals(&[-1., 0., 1., 2.5]);
    let os: Vec<f32> = if th { vec![-2., -1., -0.5, 0., 0.25, 1., 3.] } else { vec![-1.5, -1., 0., 0.5, 1., 3.] };
    let ds: Vec<f32> = if th { vec![0., -0., 1., -1., 2., -0.5, 3., -3.] } else { vec![0., -0., 1., -1., -2., 3.] };
    let ts = [INF, 1., 0.5, 2.];
    let per = iv.len() * os.len() * ds.len();
    c.family("rays", "every box with corners on a small lattice (flat ones included), origin on a lattice containing faces, directions with zeros of both signs and range; compared with the exact overlap; non-trivial: the ray meets the box", (per * per) as u64, |i, cx| {
        let mut d = Digits(i);
        let mut pick = || (*d.of(&iv), *d.of(&os), *d.of(&ds));
        let (x, y) = (pick(), pick());
        for z in 0..per {
            let mut d = Digits(z as u64);
            let z = (*d.of(&iv), *d.of(&os), *d.of(&ds));
            if [x.2, y.2, z.2] .iter().all(|v| *v == 0.) { continue; }
            for t in ts {
                cx.evals(1);
                ray_case([x.0, y.0, z.0], [x.1, y.1, z.1], [x.2, y.2, z.2], t, (i & 1) == 1, cx);
            }
            if cx.failed() { return; }
        }
        cx.sample(|| format!("x {:?}, y {:?}, every z", x, y));
    });
    // unusual magnitudes: the same at every scale and far from the origin
    let sc = [1e-30f32, 1e-10, 1e-3, 0.7, 1e3, 1e10, 1e30];
    let off = [-1.5f32, -1., -0.3, 0., 0.4, 1., 2.];
    let dd = [0f32, -0., 1., -1., 0.3, -7.];
    c.family("scales", "the box [-1, 1]^3 scaled by 7 magnitudes, origins and directions on a lattice including the faces; non-trivial: the ray meets the box", 7 * 7u64.pow(3) * 6u64.pow(3), |i, cx| {
        let mut d = Digits(i);
        let s = *d.of(&sc);
        let o = [*d.of(&off), *d.of(&off), *d.of(&off)];
        let v = [*d.of(&dd), *d.of(&dd), *d.of(&dd)];
        if v.iter().all(|v| *v == 0.) { return; }
        // oracle in units of s; skip cases decided by less than the tolerance
        let mut want = Some((0f64, f64::INFINITY));
        let mut close = false;
        for a in 0..3 {
            want = match (want, slab(-1., 1., o[a] as f64, v[a] as f64)) {
                (Some((x, y)), Some((u, v))) => Some((x.max(u), y.min(v))),
                _ => None,
            };
            if let Some((x, y)) = want { close |= (x - y).abs() < 1e-5 * (1. + x.abs()); }
        }
        if close { return; }
        let want = want.filter(|(a, b)| a <= b);
        let p = |k: f32| Point3f::new(k, k, k);
        let got = BBox3f::new(p(-s), p(s)).intersect(&Ray { origin: Point3f::new(o[0] * s, o[1] * s, o[2] * s), direction: Vector3f::new(v[0], v[1], v[2]), t_max: INF });
        if want.is_some() { cx.nontrivial(); }
        let ok = match (want, got) {
            (None, None) => true,
            (Some(w), Some(g)) => { let f = |g: f32, w: f64| (g as f64 / s as f64 - w).abs() <= 3e-6 * w.abs(); f(g.0, w.0) && f(g.1, w.1) }
            _ => false,
        };
        cx.check(ok, || format!("box of size {:e}, origin {:?}, direction {:?}: {:?}, exactly {:?}", s, o, v, got, want));
        cx.sample(|| format!("size {:e}, origin {:?}, direction {:?}", s, o, v));
    });
    // operations on sets of points: integer boxes share an integer point exactly if they overlap
    let pts: Vec<(f32, f32)> = intervals(&[-1., 0., 1., 2.]);
    let np = pts.len();
    c.family("pairs of boxes", "every pair of boxes with corners on a lattice of side 4 (all pairs of their x, y, z intervals): union, overlap, containment; non-trivial: they overlap", (np * np).pow(3) as u64, |i, cx| {
        let mut d = Digits(i);
        let a = [*d.of(&pts), *d.of(&pts), *d.of(&pts)];
        let b = [*d.of(&pts), *d.of(&pts), *d.of(&pts)];
        let mk = |v: [(f32, f32); 3]| BBox3f::new(Point3f::new(v[0].0, v[1].0, v[2].0), Point3f::new(v[0].1, v[1].1, v[2].1));
        let (p, q) = (mk(a), mk(b));
        let over = (0..3).all(|k| a[k].0.max(b[k].0) <= a[k].1.min(b[k].1));
        if over { cx.nontrivials(1); }
        if p.overlaps(&q) != over { cx.fail(format!("{:?} and {:?}: overlap is reported as {}", a, b, !over)); }
        let u = p.union(&q);
        for k in 0..3 {
            if (u.min[k], u.max[k]) != (a[k].0.min(b[k].0), a[k].1.max(b[k].1)) { cx.fail(format!("{:?} and {:?}: union {:?}..{:?}", a, b, u.min, u.max)); }
        }
        cx.sample(|| format!("{:?} and {:?}", a, b));
    });
    let g = [-2f32, -1., -0.5, 0., 0.75, 1., 2., 3.];
    c.family("boxes and points", "every box of the lattice against a lattice of points: containment, union with the point, extent, area, longest axis, bounding sphere; non-trivial: the point is inside", (np.pow(3) * 512) as u64, |i, cx| {
        let mut d = Digits(i);
        let a = [*d.of(&pts), *d.of(&pts), *d.of(&pts)];
        let p = [*d.of(&g), *d.of(&g), *d.of(&g)];
        let (lo, hi) = (Point3f::new(a[0].0, a[1].0, a[2].0), Point3f::new(a[0].1, a[1].1, a[2].1));
        let mixed = BBox3f::new(Point3f::new(lo.x, hi.y, lo.z), Point3f::new(hi.x, lo.y, hi.z));
        let b = BBox3f::new(lo, hi);
        let q = Point3f::new(p[0], p[1], p[2]);
        let inside = (0..3).all(|k| a[k].0 <= p[k] && p[k] <= a[k].1);
        if inside { cx.nontrivial(); }
        cx.check(b.point_inside(q) == inside && mixed.point_inside(q) == inside, || format!("{:?}: containment of {:?} is reported as {}", a, p, !inside));
        let u = b.union_point(q);
        for k in 0..3 {
            if (u.min[k], u.max[k]) != (a[k].0.min(p[k]), a[k].1.max(p[k])) { cx.fail(format!("{:?} and the point {:?}: union {:?}..{:?}", a, p, u.min, u.max)); }
        }
        {
            let e = [0, 1, 2].map(|k| a[k].1 - a[k].0);
            let dg = b.diagonal();
            cx.check([dg.x, dg.y, dg.z] == e, || format!("{:?}: diagonal {:?}", a, dg));
            let area = 2. * (e[0] * e[1] + e[1] * e[2] + e[0] * e[2]);
            cx.check(b.surface_area() == area, || format!("{:?}: area {} instead of {}", a, b.surface_area(), area));
            let m = match b.max_extent() { Axis::X => 0, Axis::Y => 1, Axis::Z => 2 };
            cx.check(e.iter().all(|v| *v <= e[m]), || format!("{:?}: axis {} is not the longest", a, m));
            let (ct, r) = b.bounding_sphere();
            let dist = |x: f32, y: f32, z: f32| (((ct.x - x) as f64).powi(2) + ((ct.y - y) as f64).powi(2) + ((ct.z - z) as f64).powi(2)).sqrt();
            let far = (0..8).map(|k| dist(if k & 1 == 0 { lo.x } else { hi.x }, if k & 2 == 0 { lo.y } else { hi.y }, if k & 4 == 0 { lo.z } else { hi.z })).fold(0., f64::max);
            let half = (e.iter().map(|v| (*v as f64).powi(2)).sum::<f64>()).sqrt() / 2.;
            cx.check((r as f64 - far).abs() < 1e-6 && (far - half).abs() < 1e-6, || format!("{:?}: bounding sphere {:?} {} (corners at {}, half diagonal {})", a, ct, r, far, half));
        }
        cx.sample(|| format!("{:?} and {:?}", a, p));
    });
    // far away and anisotropic boxes: the sphere encloses them up to rounding
    let co = [-1e6f32, -300.5, -1., 0., 1e-3, 7., 1e5];
    let ci = intervals(&co);
    c.family("bounding spheres", "every box with corners on a lattice of very different magnitudes: the sphere encloses all corners and is no larger than needed; non-trivial: extended", ci.len().pow(3) as u64, |i, cx| {
        let mut d = Digits(i);
        let a = [*d.of(&ci), *d.of(&ci), *d.of(&ci)];
        let (lo, hi) = (Point3f::new(a[0].0, a[1].0, a[2].0), Point3f::new(a[0].1, a[1].1, a[2].1));
        let (ct, r) = BBox3f::new(lo, hi).bounding_sphere();
        let half = ((0..3).map(|k| ((a[k].1 as f64) - a[k].0 as f64).powi(2)).sum::<f64>()).sqrt() / 2.;
        let big = co[0].abs() as f64;
        if half > 0. { cx.nontrivial(); }
        let corner = |k: usize| ap(Point3f::new(if k & 1 == 0 { lo.x } else { hi.x }, if k & 2 == 0 { lo.y } else { hi.y }, if k & 4 == 0 { lo.z } else { hi.z }));
        let far = (0..8).map(|k| { let q = corner(k); let s = ap(ct); ((q[0] - s[0]).powi(2) + (q[1] - s[1]).powi(2) + (q[2] - s[2]).powi(2)).sqrt() }).fold(0., f64::max);
        cx.check((r as f64) >= far - 4e-7 * (far + big * 0.5) && (r as f64) <= half + 4e-7 * (half + big * 0.5), || format!("{:?}: sphere {:?} radius {}, corners at {}, half diagonal {}", a, ct, r, far, half));
    });
    // 2D boxes of pixels
    c.family("pixel boxes", "every integer box with corners in -3..=3: its iterator yields each pixel (min included, max excluded) exactly once, area and diagonal agree; non-trivial: not empty", 7u64.pow(4), |i, cx| {
        let mut d = Digits(i);
        let mut k = || d.take(7) as i32 - 3;
        let (a, b) = ([k(), k()], [k(), k()]);
        let (lo, hi) = ([a[0].min(b[0]), a[1].min(b[1])], [a[0].max(b[0]), a[1].max(b[1])]);
        let bx = BBox2i::new(Point2i::new(a[0], a[1]), Point2i::new(b[0], b[1]));
        let mut got: Vec<(i32, i32)> = bx.iter().map(|p| (p.y, p.x)).collect();
        got.sort();
        let want: Vec<(i32, i32)> = (lo[1]..hi[1]).flat_map(|y| (lo[0]..hi[0]).map(move |x| (y, x))).collect();
        if !want.is_empty() { cx.nontrivial(); }
        let dg = bx.diagonal();
        cx.check(got == want && bx.area() == want.len() as i32 && (dg.x, dg.y) == (hi[0] - lo[0], hi[1] - lo[1]), || format!("box {:?} {:?}: {} pixels, area {}", a, b, got.len(), bx.area()));
    });
    c.finish();
}
