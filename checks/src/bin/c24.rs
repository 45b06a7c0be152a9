//! C24: transforms compose, invert, and act consistently on all geometry.
//!
//! Every word up to a length over an alphabet of elementary transforms and
//! their inverses is built with the real operators and compared, kind of
//! geometry by kind of geometry, with a matrix model kept in f64.

use checks::*;
use mc::num::*;
use mc::{Check, Cx, Digits, Level};
use pt::bbox::BBox3f;
use pt::interaction::Interaction;
use pt::matrix::Matrix;
use pt::ray::Ray;
use pt::transform::Transform;
use pt::vector::*;

type M = [[f64; 4]; 4];

fn mm(a: &M, b: &M) -> M {
    let mut r = [[0.; 4]; 4];
    for i in 0..4 { for j in 0..4 { for k in 0..4 { r[i][j] += a[i][k] * b[k][j]; } } }
    r
}
fn mabs(a: &M) -> M {
    let mut r = *a;
    for row in r.iter_mut() { for x in row.iter_mut() { *x = x.abs(); } }
    r
}
/// Gauss-Jordan with pivoting; `None` for a singular matrix.
fn minv(a: &M) -> Option<M> {
    let mut a = *a;
    let mut r = [[0.; 4]; 4];
    for i in 0..4 { r[i][i] = 1.; }
    for c in 0..4 {
        let p = (c..4).max_by(|&x, &y| a[x][c].abs().total_cmp(&a[y][c].abs())).unwrap();
        if a[p][c].abs() < 1e-9 { return None; }
        a.swap(c, p);
        r.swap(c, p);
        let d = a[c][c];
        for j in 0..4 { a[c][j] /= d; r[c][j] /= d; }
        for i in 0..4 {
            if i == c { continue; }
            let f = a[i][c];
            for j in 0..4 { a[i][j] -= f * a[c][j]; r[i][j] -= f * r[c][j]; }
        }
    }
    Some(r)
}
fn ident() -> M { let mut r = [[0.; 4]; 4]; for i in 0..4 { r[i][i] = 1.; } r }
fn hom(m: &M, p: V) -> [f64; 4] { std::array::from_fn(|i| m[i][0] * p[0] + m[i][1] * p[1] + m[i][2] * p[2] + m[i][3]) }
fn lin(m: &M, v: V) -> V { std::array::from_fn(|i| m[i][0] * v[0] + m[i][1] * v[1] + m[i][2] * v[2]) }
/// The inverse transpose of the linear part: what normals map by.
fn linn(mi: &M, v: V) -> V { std::array::from_fn(|i| mi[0][i] * v[0] + mi[1][i] * v[1] + mi[2][i] * v[2]) }

/// A transform as the code has it and as the model has it, with the products
/// of absolute values that bound the rounding of both directions.
#[derive(Clone)]
struct Tr {
    name: String,
    t: Transform,
    m: M,
    mi: M,
    e: M,
    ei: M,
    affine: bool,
}

fn tr(name: &str, t: Transform, m: M) -> Tr {
    let mi = minv(&m).unwrap();
    // an inverse computed from the matrix errs relative to its entries and
    // to the condition of the matrix
    let worst = mabs(&m).iter().flatten().fold(0., |a: f64, &b| a.max(b)) * mabs(&mi).iter().flatten().fold(0., |a: f64, &b| a.max(b));
    let mut ei = mabs(&mi);
    let cond = worst.max(1.).min(300.);
    for row in ei.iter_mut() { for x in row.iter_mut() { *x *= cond.sqrt().max(1.); } }
    let affine = m[3] == [0., 0., 0., 1.];
    Tr { name: name.into(), t, m, mi, e: mabs(&m), ei, affine }
}
fn inv(t: &Tr) -> Tr {
    Tr { name: format!("inverse of {}", t.name), t: t.t.inverse(), m: t.mi, mi: t.m, e: t.ei, ei: t.e, affine: t.affine }
}
fn then(a: &Tr, b: &Tr, t: Transform) -> Tr {
    Tr { name: format!("{} * {}", a.name, b.name), t, m: mm(&a.m, &b.m), mi: mm(&b.mi, &a.mi), e: mm(&a.e, &b.e), ei: mm(&b.ei, &a.ei), affine: a.affine && b.affine }
}

fn translate(x: f32, y: f32, z: f32) -> Tr {
    let mut m = ident();
    m[0][3] = x as f64; m[1][3] = y as f64; m[2][3] = z as f64;
    tr(&format!("translate({}, {}, {})", x, y, z), Transform::translate(x, y, z), m)
}
fn scale(x: f32, y: f32, z: f32) -> Tr {
    let mut m = ident();
    m[0][0] = x as f64; m[1][1] = y as f64; m[2][2] = z as f64;
    tr(&format!("scale({}, {}, {})", x, y, z), Transform::scale(x, y, z), m)
}
fn rotate(axis: usize, deg: f32) -> Tr {
    let (s, c) = (deg as f64).to_radians().sin_cos();
    let mut m = ident();
    let (a, b) = ((axis + 1) % 3, (axis + 2) % 3);
    m[a][a] = c; m[a][b] = -s; m[b][a] = s; m[b][b] = c;
    let t = match axis { 0 => Transform::rotate_x(deg), 1 => Transform::rotate_y(deg), _ => Transform::rotate_z(deg) };
    let mut t = tr(&format!("rotate_{}({})", ["x", "y", "z"][axis], deg), t, m);
    // the sine and cosine err by the rounding of the angle
    for (i, j) in [(a, a), (a, b), (b, a), (b, b)] { t.e[i][j] = 1. + (deg as f64).to_radians().abs() / 8.; }
    t.ei = t.e;
    t
}
fn look_at(p: V, l: V, up: V) -> Tr {
    let d = norm(sub(l, p));
    let x = norm(cross(norm(up), d));
    let y = cross(d, x);
    let m = [
        [x[0], y[0], d[0], p[0]],
        [x[1], y[1], d[1], p[1]],
        [x[2], y[2], d[2], p[2]],
        [0., 0., 0., 1.],
    ];
    let mut t = tr(&format!("look_at({:?}, {:?}, {:?})", p, l, up), Transform::look_at(p3(p), p3(l), v3(up)), m);
    // the axes err relative to their unit length, more so where up is close to the direction
    let k = 1. / len(cross(norm(up), d));
    for i in 0..3 { for j in 0..3 { t.e[i][j] = k; } }
    let o = k * (p[0].abs() + p[1].abs() + p[2].abs());
    t.ei = [[k, k, k, o], [k, k, k, o], [k, k, k, o], [0., 0., 0., 1.]];
    t
}
fn perspective(fov: f32, n: f32, f: f32) -> Tr {
    let k = 1. / ((fov as f64).to_radians() / 2.).tan();
    let (n, f) = (n as f64, f as f64);
    let m = [
        [k, 0., 0., 0.],
        [0., k, 0., 0.],
        [0., 0., f / (f - n), -f * n / (f - n)],
        [0., 0., 1., 0.],
    ];
    let mut t = tr(&format!("perspective({}, {}, {})", fov, n, f), Transform::perspective(fov, n as f32, f as f32), m);
    let a = (fov as f64).to_radians();
    for i in 0..2 { for e in [&mut t.e, &mut t.ei] { e[i][i] *= 1. + a / a.sin(); } }
    t
}
/// The entries of the inverse err together, relative to the largest.
fn oblique(m: [[f32; 4]; 4], through_matrix: bool) -> Tr {
    let mut t = matrix(m, through_matrix);
    let big = mabs(&t.mi).iter().take(3).flatten().fold(0., |a: f64, &b| a.max(b));
    for row in t.ei.iter_mut().take(3) { for x in row.iter_mut() { *x = x.max(big); } }
    t
}
fn matrix(m: [[f32; 4]; 4], through_matrix: bool) -> Tr {
    let t = if through_matrix { Transform::from(Matrix::from(m)) } else { Transform::from(m) };
    let mut d = [[0.; 4]; 4];
    for i in 0..4 { for j in 0..4 { d[i][j] = m[i][j] as f64; } }
    tr(&format!("matrix {:?}", m), t, d)
}

const EPS: f64 = 1. / (1u64 << 23) as f64;
const TOL: f64 = 16. * EPS;

/// Project with error: value and bound per coordinate, `None` too close to
/// the plane that maps to infinity.
fn project(m: &M, e: &M, p: V, pe: V, n: f64) -> Option<(V, V)> {
    let h = hom(m, p);
    let eh = hom(e, [p[0].abs(), p[1].abs(), p[2].abs()]);
    let l = lin(&mabs(m), pe);
    let le = m[3][0].abs() * pe[0] + m[3][1].abs() * pe[1] + m[3][2].abs() * pe[2];
    let ew = eh[3] * TOL * n + le;
    if h[3].abs() < 100. * ew || h[3].abs() < 1e-3 { return None; }
    let v: V = std::array::from_fn(|i| h[i] / h[3]);
    let b: V = std::array::from_fn(|i| (eh[i] * TOL * n + l[i] + v[i].abs() * ew) / (h[3].abs() - ew) + 1e-30);
    Some((v, b))
}
fn within(got: V, want: V, b: V) -> bool { (0..3).all(|i| (got[i] - want[i]).abs() <= b[i]) }

const PS: [V; 8] = [[0., 0., 0.], [1., 0., 0.], [0., 1., 0.], [0., 0., 1.], [-1.5, 2., 3.], [4., -0.25, -2.], [-0.5, -3., 1.25], [10., 7., -30.]];
const VS: [V; 5] = [[1., 0., 0.], [0., 1., 0.], [0., 0., 1.], [1., -2., 0.5], [-3., 0.25, 2.]];
/// pairs of a normal and a vector; the first five perpendicular
const NV: [(V, V); 9] = [
    ([0., 0., 1.], [1., 0., 0.]), ([1., 0., 0.], [0., -2., 1.]), ([1., 1., 0.], [1., -1., 0.5]), ([1., 2., -2.], [2., 1., 2.]), ([-1., 0.5, 3.], [3., 6., 0.]),
    ([0., 1., 0.], [0.5, 1., -0.25]), ([1., 1., 1.], [1., -0.5, 0.25]), ([2., -1., 0.5], [-1., 1., 3.]), ([0., 0., -1.], [0.25, 1., 2.]),
];
const BOXES: [(V, V); 5] = [([0., 0., 0.], [1., 1., 1.]), ([-1., -2., -3.], [1., 2., 3.]), ([2., -0.5, 1.], [2.5, 4., 1.]), ([1., 2., 3.], [1., 2., 3.]), ([-4., 0.5, -1.], [-3., 0.75, 6.])];

/// All checks of one transform against its model, in the direction given by
/// the matrices; `f` applies it.
struct Dir<'a> {
    m: &'a M,
    mi: &'a M,
    e: &'a M,
    ei: &'a M,
    affine: bool,
    n: f64,
}

fn judge(cx: &mut Cx, name: &str, d: &Dir, point: &dyn Fn(V) -> V, vector: &dyn Fn(V) -> V, normal: &dyn Fn(V) -> V, ray: &dyn Fn(&Ray) -> Ray, bbox: &dyn Fn(BBox3f) -> BBox3f, hit: &dyn Fn(&Interaction) -> Interaction) {
    let zero = [0.; 3];
    for &p in &PS {
        let Some((want, b)) = project(d.m, d.e, p, zero, d.n) else { cx.count("points left out next to the plane that maps to infinity", 1); continue };
        cx.evals(1);
        let got = point(p);
        if !cx.check(within(got, want, b), || format!("{} maps the point {:?} to {:?} instead of {:?}", name, p, got, want)) { return; }
    }
    for &(lo, hi) in &BOXES {
        // the whole box on one side of the plane that maps to infinity
        let mut sign = 0.;
        let mut fine = true;
        let corner = |k: usize| -> V { std::array::from_fn(|i| [lo[i], 0.5 * (lo[i] + hi[i]), hi[i]][k / 3usize.pow(i as u32) % 3]) };
        for k in 0..27 {
            let p = corner(k);
            let w = hom(d.m, p)[3];
            if project(d.m, d.e, p, zero, d.n).is_none() || sign * w < 0. { fine = false; break; }
            sign = w;
        }
        if !fine { cx.count("boxes left out that reach the plane that maps to infinity", 1); continue; }
        let got = bbox(BBox3f::new(p3(lo), p3(hi)));
        let (gl, gh) = (ap(got.min), ap(got.max));
        for k in 0..27 {
            let p = corner(k);
            let (q, b) = project(d.m, d.e, p, zero, d.n).unwrap();
            cx.evals(1);
            if !cx.check((0..3).all(|i| gl[i] - b[i] <= q[i] && q[i] <= gh[i] + b[i]),
                || format!("{} maps the box {:?}..{:?} to {:?}..{:?}, which leaves out {:?}, the image of its point {:?}", name, lo, hi, gl, gh, q, p)) { return; }
        }
    }
    if !d.affine { return; }
    for &v in &VS {
        let want = lin(d.m, v);
        let b = mul(lin(d.e, [v[0].abs(), v[1].abs(), v[2].abs()]), TOL * d.n);
        let got = vector(v);
        cx.evals(1);
        if !cx.check(within(got, want, b), || format!("{} maps the vector {:?} to {:?} instead of {:?}", name, v, got, want)) { return; }
    }
    for (k, &(n, v)) in NV.iter().enumerate() {
        let (gn, gv) = (normal(n), vector(v));
        let (wn, wv) = (linn(d.mi, n), lin(d.m, v));
        cx.evals(1);
        let bn = linn(d.ei, [n[0].abs(), n[1].abs(), n[2].abs()]);
        let bv = lin(d.e, [v[0].abs(), v[1].abs(), v[2].abs()]);
        // directions only: a normal may come back renormalised
        let tol = TOL * d.n * (len(bn) / len(wn)).max(1.) * (len(bv) / len(wv)).max(1.);
        let c = dot(gn, gv) / (len(gn) * len(gv));
        let want = dot(wn, wv) / (len(wn) * len(wv));
        if !cx.check((c - want).abs() <= tol.min(0.5), || format!("{} maps the normal {:?} and the vector {:?} to {:?} and {:?}, the cosine between them {:e} instead of {:e}", name, n, v, gn, gv, c, want)) { return; }
        let dir = mul(wn, 1. / len(wn));
        let got = mul(gn, 1. / len(gn));
        if !cx.check(close(got, dir, tol.min(0.5)), || format!("{} maps the normal {:?} to the direction {:?} instead of {:?}", name, n, got, dir)) { return; }
        if k < 5 { cx.count("perpendicular pairs", 1); }
    }
    for (j, &o) in PS.iter().enumerate() {
        let v = VS[j % 5];
        let t_max = [f32::INFINITY, 0.9999, 7.5][j % 3];
        let r = Ray { origin: p3(o), direction: v3(v), t_max };
        let g = ray(&r);
        if !cx.check(g.t_max == t_max, || format!("{} changes the length of a ray from {} to {}", name, t_max, g.t_max)) { return; }
        for t in [0., 1., 2.5] {
            let p = add(o, mul(v, t));
            let ends = [o[0].abs() + t * v[0].abs(), o[1].abs() + t * v[1].abs(), o[2].abs() + t * v[2].abs()];
            let Some((want, b)) = project(d.m, d.e, p, mul(ends, TOL), d.n) else { continue };
            let got = add(ap(g.origin), mul(a3(g.direction), t));
            let slack = lin(d.e, ends);
            let b = std::array::from_fn(|i| b[i] + slack[i] * TOL * d.n);
            cx.evals(1);
            if !cx.check(within(got, want, b), || format!("{} maps the ray {:?} + t {:?} so that its point at {} is {:?} instead of {:?}", name, o, v, t, got, want)) { return; }
        }
    }
    // hit records: each field as its kind, and the error bound stays a bound
    for (j, &p) in PS.iter().enumerate() {
        let (n, v) = NV[j];
        let err = [[0.25, 0.5, 1.], [0., 1., 0.], [1., 0.125, 0.25]][j % 3];
        let i = Interaction { p: p3(p), p_err: v3(err), uv: Point2f::new(0.25, 0.75), n: n3(n), sn: n3(NV[(j + 1) % 9].0), dpdu: v3(v), dpdv: v3(VS[j % 5]), wo: v3(VS[(j + 1) % 5]), shape: None };
        let g = hit(&i);
        cx.evals(1);
        let same = |a: V, b: V| close(a, b, 1e-6 * len(a).max(len(b)));
        let dirs = |a: V, b: V| close(mul(a, 1. / len(a)), mul(b, 1. / len(b)), 1e-5);
        let ok = same(ap(g.p), point(p)) && same(a3(g.dpdu), vector(v)) && same(a3(g.dpdv), vector(VS[j % 5])) && same(a3(g.wo), vector(VS[(j + 1) % 5]))
            && dirs(an(g.n), normal(n)) && dirs(an(g.sn), normal(NV[(j + 1) % 9].0)) && g.uv == i.uv && g.shape.is_none();
        if !cx.check(ok, || format!("{} maps a hit at {:?} to one whose fields are not the images of its fields (point {:?}, normal {:?}, shading normal {:?}, tangents {:?} {:?}, wo {:?})", name, p, ap(g.p), an(g.n), an(g.sn), a3(g.dpdu), a3(g.dpdv), a3(g.wo))) { return; }
        let want = lin(&mabs(d.m), err);
        let got = a3(g.p_err);
        let slack = mul(lin(d.e, err), TOL * d.n);
        if !cx.check((0..3).all(|i| got[i] >= want[i] - slack[i]), || format!("{} maps a hit with error bound {:?} to one with error bound {:?}, although its point can be off by {:?}", name, err, got, want)) { return; }
    }
}

fn word_check(cx: &mut Cx, w: &Tr, n: f64) {
    let t = w.t;
    judge(cx, &w.name, &Dir { m: &w.m, mi: &w.mi, e: &w.e, ei: &w.ei, affine: w.affine, n },
        &|p| ap(t.apply(&p3(p))), &|v| a3(t.apply(&v3(v))), &|v| an(t.apply(&n3(v))), &|r| t.apply(r), &|b| t.apply(&b), &|i| t.apply(i));
    if cx.failed() { return; }
    let name = format!("inverse_apply of {}", w.name);
    judge(cx, &name, &Dir { m: &w.mi, mi: &w.m, e: &w.ei, ei: &w.e, affine: w.affine, n },
        &|p| ap(t.inverse_apply(&p3(p))), &|v| a3(t.inverse_apply(&v3(v))), &|v| an(t.inverse_apply(&n3(v))), &|r| t.inverse_apply(r), &|b| t.inverse_apply(&b), &|i| t.inverse_apply(i));
    if cx.failed() { return; }
    let ti = t.inverse();
    for &p in &PS {
        // the two spellings of the inverse, and there and back again
        if let Some((want, b)) = project(&w.mi, &w.ei, p, [0.; 3], n) {
            let got = ap(ti.apply(&p3(p)));
            cx.evals(1);
            cx.check(within(got, want, b), || format!("the inverse of {} maps the point {:?} to {:?} instead of {:?}", w.name, p, got, want));
            if let Some((want, b)) = project(&w.m, &w.e, p, [0.; 3], n) {
                let back = ap(ti.inverse().apply(&p3(p)));
                cx.check(within(back, want, b), || format!("the inverse of the inverse of {} maps the point {:?} to {:?} instead of {:?}", w.name, p, back, want));
            }
        }
        if let Some((q, b)) = project(&w.m, &w.e, p, [0.; 3], n) {
            if let Some((_, bb)) = project(&w.mi, &w.ei, q, b, n) {
                if len(bb) > 0.05 * (1. + len(p)) { cx.count("round trips too ill-conditioned to compare", 1); continue; }
                let got = ap(t.inverse_apply(&t.apply(&p3(p))));
                cx.evals(1);
                cx.check(within(got, p, bb), || format!("{} followed by its inverse maps the point {:?} to {:?}", w.name, p, got));
            }
        }
    }
}

fn main() {
    let mut c = Check::new("C24", Level::Exploration);
    c.assume("vectors, normals, rays and hit records are checked for affine transforms; points and boxes also for perspective ones, away from the plane that maps to infinity");
    c.assume("rounding: 16 float spacings per factor, carried through the absolute values of the matrices");

    let elementary = |dense: bool| -> Vec<Tr> {
        let mut v = vec![
            translate(1.5, -2., 0.5),
            scale(2., 0.5, -3.),
            rotate(0, 30.),
            rotate(1, 90.),
            rotate(2, -50.),
            look_at([1., -2., 3.], [0.5, 4., 1.], [0.25, 0.5, 2.]),
            perspective(60., 0.5, 20.),
            matrix([[1., 0.5, 0., -1.], [-0.25, 2., 1., 3.], [0., -1., 0.5, 0.25], [0., 0., 0., 1.]], false),
        ];
        if dense {
            v.push(matrix([[1., 0.5, 0.25, -1.], [0.5, 2., -1., 0.25], [0.125, -0.5, 1.5, 1.], [0.0625, -0.03125, 0.125, 2.]], true));
        }
        v
    };

    // elementary transforms over lattices of their parameters
    let mut el: Vec<Tr> = Vec::new();
    let xs: &[f32] = c.pick(&[-3., 0., 2e-5, 0.125, 1., 40., 3000.], &[-1000., -3., -0.001, 0., 2e-5, 0.125, 1., 40., 3000., 1e5]);
    for &x in xs { for &y in xs { for &z in xs {
        el.push(translate(x, y, z));
        if x * y * z != 0. { el.push(scale(x, y, z)); }
    } } }
    let step = c.pick(15, 1);
    for k in -720 / step..=720 / step { for a in 0..3 { el.push(rotate(a, (k * step) as f32)); } }
    for a in 0..3 { for deg in [0.001f32, 89.999, 45.5, -0.25, 1e-6] { el.push(rotate(a, deg)); } }
    let pos = [[0., 0., 0.], [1., -2., 3.], [-30., 4., 0.5]];
    let dirs = [[1., 0., 0.], [0., -1., 0.], [0., 0., 1.], [1., 2., -0.5], [-3., 0.25, 4.], [0.001, 0., 0.002], [500., -200., 100.], [-20000., 3000., 5000.]];
    let ups = [[0., 0., 1.], [0., 1., 0.], [-1., 0., 0.], [1., 1., 0.25], [0., -3., 0.5], [0.001, 0.002, -0.001], [100., -20., 3.]];
    let dots = |a: V, b: V| (dot(a, b) / (len(a) * len(b))).abs();
    for &p in &pos { for &d in &dirs { for &u in &ups {
        if dots(d, u) < 0.999 && !(len(d) < 0.1 && len(p) > 10.) { el.push(look_at(p, add(p, d), u)); }
    } } }
    for fov in [0.1f32, 1., 20., 45., 60., 90., 120., 170., 176., 179.5] { for n in [0.01f32, 0.5, 1.] { for f in [2f32, 20., 1000.] {
        el.push(perspective(fov, n, f));
    } } }
    for t in elementary(true) { el.push(t); }
    // matrices with axes of length one that are not at right angles, shears, and exchanged axes
    let unit = [[1f32, 0., 0.], [0., 1., 0.], [0., 0., 1.], [-1., 0., 0.], [0., -1., 0.], [0., 0., -1.], [0.6, 0.8, 0.], [0., -0.6, 0.8], [0.8, 0., 0.6], [-0.28, 0.96, 0.], [0.48, 0.6, 0.64], [0.5, 0.5, 0.70710677]];
    let det = |a: [f32; 3], b: [f32; 3], c: [f32; 3]| dot(cross(a.map(|x| x as f64), b.map(|x| x as f64)), c.map(|x| x as f64)).abs();
    for a in unit { for b in unit { for e in unit { if det(a, b, e) > 0.2 { for s in [0f32, 1.] {
        let at = [0.5 * s, -2. * s, 3. * s];
        el.push(oblique([[a[0], a[1], a[2], at[0]], [b[0], b[1], b[2], at[1]], [e[0], e[1], e[2], at[2]], [0., 0., 0., 1.]], s > 0.));
        el.push(oblique([[a[0], b[0], e[0], at[0]], [a[1], b[1], e[1], at[1]], [a[2], b[2], e[2], at[2]], [0., 0., 0., 1.]], s == 0.));
    } } } } }
    let total = el.len() as u64 * 2;
    c.family("elementary transforms", "every translation, scaling, rotation, look-at and perspective over lattices of their parameters and every matrix with rows or columns of length one from a list of twelve, forwards and inverted, on all kinds of geometry and its lattice; non-trivial: not a translation or a scaling", total, |i, cx| {
        let t = &el[(i / 2) as usize];
        let t = if i % 2 == 1 { inv(t) } else { t.clone() };
        if !t.name.contains("translate") && !t.name.contains("scale") { cx.nontrivial(); }
        cx.sample(|| t.name.clone());
        word_check(cx, &t, 2.);
    });

    // words
    let letters: Vec<Tr> = elementary(true).iter().flat_map(|t| [t.clone(), inv(t)]).collect();
    let extreme: Vec<Tr> = elementary(false).into_iter().filter(|t| t.affine).chain([scale(3000., 5000., -2000.), scale(2e-5, 3e-5, 1e-5), translate(2e4, -3e4, 1e4), rotate(0, 180.), rotate(1, 179.5)]).flat_map(|t| [t.clone(), inv(&t)]).collect();
    let long = c.pick(5u32, 6);
    for (length, far) in (2..=long).map(|k| (k, false)).chain((2..=long - 1).map(|k| (k, true))) {
        let letters = if far { &extreme } else { &letters };
        let n = letters.len() as u64;
        let (title, alphabet) = if far { ("words of far-reaching transforms", "7 affine transforms, scalings by thousands and by a hundred-thousandth, a far translation, half turns, and the inverses of all,") } else { ("words of transforms", "9 elementary transforms (translation, scaling with a reflection, three rotations, look-at, perspective, an affine and a dense matrix) and their 9 inverses,") };
        c.family(&format!("{}, length {}", title, length), &format!("every word of {} letters over {} multiplied from the left and from the right; points, boxes, and for affine words vectors, normals, rays and hits, forwards, backwards and there and back again; non-trivial: at least two different kinds of transform", length, alphabet), n.pow(length), |i, cx| {
            let mut d = Digits(i);
            let idx: Vec<usize> = (0..length).map(|_| d.take(n as usize)).collect();
            let w: Vec<&Tr> = idx.iter().map(|&k| &letters[k]).collect();
            if idx.iter().any(|k| k / 2 != idx[0] / 2) { cx.nontrivial(); }
            let mut left = w[0].clone();
            for t in &w[1..] { left = then(&left, t, left.t * t.t); }
            let mut right = w[w.len() - 1].t;
            for t in w[..w.len() - 1].iter().rev() { right = t.t * right; }
            cx.sample(|| left.name.clone());
            let n = length as f64 + 1.;
            word_check(cx, &left, n);
            if cx.failed() { return; }
            for &p in &PS {
                if let Some((want, b)) = project(&left.m, &left.e, p, [0.; 3], n) {
                    let got = ap(right.apply(&p3(p)));
                    cx.evals(1);
                    cx.check(within(got, want, b), || format!("{} multiplied from the right maps the point {:?} to {:?} instead of {:?}", left.name, p, got, want));
                    // applying the parts in turn
                    let mut q = p3(p);
                    let mut ok = true;
                    let (mut x, mut bound) = (p, [0.; 3]);
                    for t in w.iter().rev() {
                        match project(&t.m, &t.e, x, bound, 2.) {
                            Some((y, b)) if len(b) < 1e3 => { q = t.t.apply(&q); x = y; bound = b; }
                            _ => { ok = false; break; }
                        }
                    }
                    if ok {
                        cx.evals(1);
                        cx.check(within(ap(q), want, add(bound, b)), || format!("applying the parts of {} in turn maps the point {:?} to {:?} instead of {:?}", left.name, p, q, want));
                    }
                }
            }
        });
    }

    // matrices
    c.family("matrices of zeros and ones", "the inverse of every invertible 4 x 4 matrix with entries 0 and 1 (its determinant and adjugate are small whole numbers), times the matrix from both sides; non-trivial: not a permutation", 1 << 16, |i, cx| {
        let m: [[f32; 4]; 4] = std::array::from_fn(|r| std::array::from_fn(|k| (i >> (4 * r + k) & 1) as f32));
        matrix_check(cx, m);
    });
    c.family("matrices of -1, 0 and 1", "the same for every invertible 4 x 4 matrix with entries -1, 0 and 1", 3u64.pow(16), |i, cx| {
        let mut d = Digits(i);
        let m: [[f32; 4]; 4] = std::array::from_fn(|_| std::array::from_fn(|_| d.take(3) as f32 - 1.));
        matrix_check(cx, m);
    });
    c.family("products of matrix units", "the product of every pair of matrices with a single entry, and the transpose of each: the two operations are linear, so these decide them for all matrices of small whole numbers", 256 * 16, |i, cx| {
        let mut d = Digits(i);
        let (a, b, k) = (d.take(16), d.take(16), d.take(16));
        let unit = |x: usize, v: f32| -> [[f32; 4]; 4] { let mut m = [[0.; 4]; 4]; m[x / 4][x % 4] = v; m };
        let scale = k as f32 + 1.;
        let p = Matrix::from(unit(a, scale)) * Matrix::from(unit(b, 3.));
        if a % 4 == b / 4 { cx.nontrivial(); }
        let tr = Matrix::from(unit(a, scale)).transpose();
        for r in 0..4 { for s in 0..4 {
            let want = if a % 4 == b / 4 && r == a / 4 && s == b % 4 { 3. * scale } else { 0. };
            cx.check(p[r][s] == want, || format!("entry {} {} of the product of unit {} and unit {} is {} instead of {}", r, s, a, b, p[r][s], want));
            let want = if s * 4 + r == a { scale } else { 0. };
            cx.check(tr[r][s] == want, || format!("entry {} {} of the transpose of unit {} is {} instead of {}", r, s, a, tr[r][s], want));
        } }
    });
    c.finish()
}

fn matrix_check(cx: &mut Cx, m: [[f32; 4]; 4]) {
    let mi: [[i64; 4]; 4] = std::array::from_fn(|r| std::array::from_fn(|k| m[r][k] as i64));
    // determinant and adjugate in whole numbers
    let minor = |r: usize, c: usize| -> i64 {
        let rows: [usize; 3] = std::array::from_fn(|k| if k < r { k } else { k + 1 });
        let cols: [usize; 3] = std::array::from_fn(|k| if k < c { k } else { k + 1 });
        let a = |i: usize, j: usize| mi[rows[i]][cols[j]];
        a(0, 0) * (a(1, 1) * a(2, 2) - a(1, 2) * a(2, 1)) - a(0, 1) * (a(1, 0) * a(2, 2) - a(1, 2) * a(2, 0)) + a(0, 2) * (a(1, 0) * a(2, 1) - a(1, 1) * a(2, 0))
    };
    let det: i64 = (0..4).map(|k| if k % 2 == 0 { 1 } else { -1 } * mi[0][k] * minor(0, k)).sum();
    if det == 0 { return; }
    if mi.iter().flatten().filter(|x| **x != 0).count() > 4 { cx.nontrivial(); }
    cx.evals(1);
    let g = Matrix::from(m).inverse();
    for r in 0..4 { for k in 0..4 {
        let sign = if (r + k) % 2 == 0 { 1 } else { -1 };
        let want = (sign * minor(k, r)) as f64 / det as f64;
        if !cx.check((g[r][k] as f64 - want).abs() <= 4e-6, || format!("entry {} {} of the inverse of {:?} is {} instead of {}", r, k, m, g[r][k], want)) { return; }
    } }
}
