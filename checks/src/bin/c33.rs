//! C33: vectors, points, normals, colours, rays and boxes obey componentwise arithmetic.
use mc::num::*;
use mc::{Check, Cx, Digits, Level};
use pt::axis::Axis;
use pt::bbox::*;
use pt::ray::Ray;
use pt::spectrum::Spectrum;
use pt::vector::*;

type F3 = [f32; 3];
/// Equal, zeros of either sign alike; a quotient may be off by the last bit.
fn eq(a: f32, b: f32) -> bool { a == b || a.is_nan() && b.is_nan() }
fn near(a: f32, b: f64) -> bool { (a as f64 - b).abs() <= 4e-7 * b.abs() + 1e-44 }

macro_rules! parts3 { ($t:ident, $x:ident, $y:ident, $z:ident) => {
    impl Parts for $t {
        fn of(v: F3) -> $t { $t::new(v[0], v[1], v[2]) }
        fn parts(self) -> F3 { [self.$x, self.$y, self.$z] }
    }
} }
trait Parts: Copy { fn of(v: F3) -> Self; fn parts(self) -> F3; }
parts3!(Vector3f, x, y, z);
parts3!(Normal3f, x, y, z);
parts3!(Point3f, x, y, z);
parts3!(Spectrum, r, g, b);

fn same(cx: &mut Cx, what: &str, got: F3, want: F3, args: &dyn std::fmt::Debug) {
    cx.evals(1);
    cx.check((0..3).all(|k| eq(got[k], want[k])), || format!("{} of {:?} is {:?} instead of {:?}", what, args, got, want));
}
fn same_d(cx: &mut Cx, what: &str, got: F3, want: [f64; 3], args: &dyn std::fmt::Debug) {
    cx.evals(1);
    cx.check((0..3).all(|k| near(got[k], want[k])), || format!("{} of {:?} is {:?} instead of {:?}", what, args, got, want));
}
fn val(cx: &mut Cx, what: &str, got: f32, want: f64, args: &dyn std::fmt::Debug) {
    cx.evals(1);
    cx.check(near(got, want), || format!("{} of {:?} is {:e} instead of {:e}", what, args, got, want));
}
fn m(a: F3, b: F3, f: impl Fn(f32, f32) -> f32) -> F3 { [f(a[0], b[0]), f(a[1], b[1]), f(a[2], b[2])] }
fn q(a: F3, b: F3) -> [f64; 3] { let d = |k: usize| a[k] as f64 / b[k] as f64; [d(0), d(1), d(2)] }
fn d(a: F3) -> V { a.map(|x| x as f64) }

/// Every operation of a kind with a number, and on its own.
fn alone<T>(cx: &mut Cx, name: &str, a: F3, s: f32, len: impl Fn(&T) -> f32, abs: impl Fn(&T) -> T, nrm: impl Fn(&T) -> T)
where T: Parts + std::ops::Neg<Output = T> + std::ops::Add<f32, Output = T> + std::ops::Sub<f32, Output = T> + std::ops::Mul<f32, Output = T> + std::ops::Div<f32, Output = T>
    + std::ops::AddAssign<f32> + std::ops::SubAssign<f32> + std::ops::MulAssign<f32> + std::ops::DivAssign<f32> {
    let t = T::of(a);
    let arg = (name, a, s);
    same(cx, "the parts", t.parts(), a, &arg);
    same(cx, "-", (-t).parts(), a.map(|x| -x), &arg);
    same(cx, "+ number", (t + s).parts(), a.map(|x| x + s), &arg);
    same(cx, "- number", (t - s).parts(), a.map(|x| x - s), &arg);
    same(cx, "* number", (t * s).parts(), a.map(|x| x * s), &arg);
    let mut u = t; u += s; same(cx, "+= number", u.parts(), a.map(|x| x + s), &arg);
    let mut u = t; u -= s; same(cx, "-= number", u.parts(), a.map(|x| x - s), &arg);
    let mut u = t; u *= s; same(cx, "*= number", u.parts(), a.map(|x| x * s), &arg);
    if s != 0. {
        same_d(cx, "/ number", (t / s).parts(), q(a, [s; 3]), &arg);
        let mut u = t; u /= s; same_d(cx, "/= number", u.parts(), q(a, [s; 3]), &arg);
    }
    same(cx, "abs", abs(&t).parts(), a.map(|x| x.abs()), &arg);
    let l = mc::num::len(d(a));
    val(cx, "length", len(&t), l, &arg);
    if l > 0. { let n = norm(d(a)); let g = nrm(&t).parts(); cx.evals(1); cx.check((0..3).all(|k| (g[k] as f64 - n[k]).abs() < 4e-7), || format!("normalize of {:?} is {:?} instead of {:?}", arg, g, n)); }
}

fn axis_no(a: Axis) -> usize { a as usize }
const AX: [Axis; 3] = [Axis::X, Axis::Y, Axis::Z];

fn main() {
    let mut c = Check::new("C33", Level::Exploration);
    c.assume("values on lattices of short binary fractions, where sums and products are exact; quotients, lengths and roots within a few roundings");
    let lat: Vec<f32> = c.pick(vec![-3., -1.5, -0.5, -0.0, 0.25, 1., 2., 7., 1024.], vec![-1000., -64., -3., -1.5, -0.5, -0.0, 0., 0.25, 1., 2., 5., 7., 1024.]);
    let n = lat.len() as u64;

    c.family("a kind and a number", "every operation of vectors, normals, points and colours alone and with a number, both forms (a + b, a += b), on all triples x numbers of a lattice; indices and axes, written through too; non-trivial: three different parts", n.pow(4), |i, cx| {
        let mut g = Digits(i);
        let (a, s) = ([*g.of(&lat), *g.of(&lat), *g.of(&lat)], *g.of(&lat));
        if a[0] != a[1] && a[1] != a[2] && a[0] != a[2] { cx.nontrivial(); }
        alone::<Vector3f>(cx, "vector", a, s, |t| t.length(), |t| t.abs(), |t| t.normalize());
        alone::<Normal3f>(cx, "normal", a, s, |t| t.length(), |t| t.abs(), |t| t.normalize());
        alone::<Point3f>(cx, "point", a, s, |t| t.length(), |t| t.abs(), |t| t.normalize());
        alone::<Spectrum>(cx, "colour", a, s, |t| t.length(), |t| t.abs(), |t| t.normalize());
        let (mut v, mut p, mut l) = (Vector3f::of(a), Point3f::of(a), Spectrum::of(a));
        for k in 0..3 {
            let w = { let mut w = a; w[k] = s; w };
            cx.check(eq(v[k], a[k]) && eq(p[k], a[k]) && eq(l[k], a[k]) && eq(v[AX[k]], a[k]) && eq(p[AX[k]], a[k]), || format!("part {} of {:?} is {} / {} / {} / {} / {}", k, a, v[k], p[k], l[k], v[AX[k]], p[AX[k]]));
            let (v0, p0, l0) = (v, p, l);
            v[k] = s; p[k] = s; l[k] = s;
            same(cx, "writing a vector's part by number", v.parts(), w, &(a, k, s));
            same(cx, "writing a point's part by number", p.parts(), w, &(a, k, s));
            same(cx, "writing a colour's part by number", l.parts(), w, &(a, k, s));
            v = v0; p = p0;
            v[AX[k]] = s; p[AX[k]] = s;
            same(cx, "writing a vector's part by axis", v.parts(), w, &(a, k, s));
            same(cx, "writing a point's part by axis", p.parts(), w, &(a, k, s));
            v = v0; p = p0; l = l0;
        }
        same(cx, "a vector made of a point", Vector3f::from(Point3f::of(a)).parts(), a, &a);
        same(cx, "a vector made of a normal", Vector3f::from(Normal3f::of(a)).parts(), a, &a);
        same(cx, "a normal made of a vector", Normal3f::from(Vector3f::of(a)).parts(), a, &a);
        same(cx, "a normal made of a point", Normal3f::from(Point3f::of(a)).parts(), a, &a);
        same(cx, "a point made of a vector", Point3f::from(Vector3f::of(a)).parts(), a, &a);
        same(cx, "a grey colour", Spectrum::from(s).parts(), [s; 3], &s);
        for t in [Vector3f::default().parts(), Normal3f::default().parts(), Point3f::default().parts(), Spectrum::default().parts()] { same(cx, "default", t, [0.; 3], &()); }
        // parts, axes
        let v = Vector3f::of(a);
        let big = a.iter().fold(0f32, |x, y| x.max(y.abs()));
        let ax = axis_no(v.max_abs_axis());
        cx.check(a[ax].abs() == big, || format!("max_abs_axis of {:?} is {}", a, ax));
        cx.check(eq(v.max_component(), a.iter().cloned().fold(f32::MIN, f32::max)), || format!("max_component of {:?} is {}", a, v.max_component()));
        for x in 0..3 { for y in 0..3 { for z in 0..3 {
            same(cx, "permute of a vector", v.permute(AX[x], AX[y], AX[z]).parts(), [a[x], a[y], a[z]], &(a, x, y, z));
            same(cx, "permute of a point", Point3f::of(a).permute(AX[x], AX[y], AX[z]).parts(), [a[x], a[y], a[z]], &(a, x, y, z));
        } } }
        if big > 0. {
            let w = v.normalize();
            let (e, f) = w.construct_coordinate_system();
            let (w, e, f) = (d(w.parts()), d(e.parts()), d(f.parts()));
            let ok = (mc::num::len(e) - 1.).abs() < 1e-5 && (mc::num::len(f) - 1.).abs() < 1e-5 && dot(w, e).abs() < 1e-5 && dot(w, f).abs() < 1e-5 && dot(e, f).abs() < 1e-5;
            cx.check(ok, || format!("the coordinate system on {:?} is {:?} {:?}", w, e, f));
        }
        // colours
        let col = Spectrum::of(a);
        cx.check(col.is_black() == a.iter().all(|&x| x == 0.), || format!("is_black of {:?} is {}", a, col.is_black()));
        let y = 0.212671 * a[0] as f64 + 0.715160 * a[1] as f64 + 0.072169 * a[2] as f64;
        cx.check((col.y() as f64 - y).abs() < 1e-6 * (1. + big as f64), || format!("the luminance of {:?} is {} instead of {}", a, col.y(), y));
        { let g = col.sqrt().parts(); cx.check((0..3).all(|k| a[k] >= 0. || g[k].is_nan()), || format!("the root of colour {:?} is {:?}", a, g)); }
        if a.iter().all(|&x| x >= 0.) { same_d(cx, "the root of a colour", col.sqrt().parts(), d(a).map(f64::sqrt), &a); }
        for (lo, hi) in [(-0.5f32, 1f32), (0., s.abs()), (s, s)] { if lo <= hi { same(cx, "clamp of a colour", col.clamp(lo, hi).parts(), a.map(|x| if x < lo { lo } else if x > hi { hi } else { x }), &(a, lo, hi)); } }
        // rays
        let r = Ray { origin: Point3f::of([a[1], a[2], a[0]]), direction: Vector3f::of(a), t_max: 1. };
        same(cx, "the position on a ray", r.position(s).parts(), [a[1] + a[0] * s, a[2] + a[1] * s, a[0] + a[2] * s], &(a, s));
        let r = Ray::default();
        cx.check(r.t_max == f32::INFINITY && r.position(2.).parts() == [0.; 3], || "the default ray".into());
        cx.sample(|| format!("{:?} {}", a, s));
    });

    c.family("two of a kind", "every operation of two vectors, normals, points, colours on all pairs of triples of a lattice, both forms (a + b, a += b), products, distances, boxes of two corners; non-trivial: all six numbers are not the same", n.pow(6), |i, cx| {
        let mut g = Digits(i);
        let a: F3 = [*g.of(&lat), *g.of(&lat), *g.of(&lat)];
        let b: F3 = [*g.of(&lat), *g.of(&lat), *g.of(&lat)];
        if a.iter().chain(b.iter()).any(|&x| x != a[0]) { cx.nontrivial(); }
        let arg = (a, b);
        let (sum, dif, pro) = (m(a, b, |x, y| x + y), m(a, b, |x, y| x - y), m(a, b, |x, y| x * y));
        let (va, vb, pa, pb, na, nb, ca, cb) = (Vector3f::of(a), Vector3f::of(b), Point3f::of(a), Point3f::of(b), Normal3f::of(a), Normal3f::of(b), Spectrum::of(a), Spectrum::of(b));
        same(cx, "vector + vector", (va + vb).parts(), sum, &arg);
        same(cx, "normal + normal", (na + nb).parts(), sum, &arg);
        same(cx, "point + point", (pa + pb).parts(), sum, &arg);
        same(cx, "point + vector", (pa + vb).parts(), sum, &arg);
        same(cx, "colour + colour", (ca + cb).parts(), sum, &arg);
        let mut t = va; t += vb; same(cx, "vector += vector", t.parts(), sum, &arg);
        let mut t = na; t += nb; same(cx, "normal += normal", t.parts(), sum, &arg);
        let mut t = pa; t += pb; same(cx, "point += point", t.parts(), sum, &arg);
        let mut t = pa; t += vb; same(cx, "point += vector", t.parts(), sum, &arg);
        let mut t = ca; t += cb; same(cx, "colour += colour", t.parts(), sum, &arg);
        let v: Vector3f = pa - pb; same(cx, "point - point", v.parts(), dif, &arg);
        let p: Point3f = pa - vb; same(cx, "point - vector", p.parts(), dif, &arg);
        same(cx, "vector - vector", (va - vb).parts(), dif, &arg);
        same(cx, "colour - colour", (ca - cb).parts(), dif, &arg);
        let mut t = va; t -= vb; same(cx, "vector -= vector", t.parts(), dif, &arg);
        let mut t = pa; t -= vb; same(cx, "point -= vector", t.parts(), dif, &arg);
        let mut t = ca; t -= cb; same(cx, "colour -= colour", t.parts(), dif, &arg);
        same(cx, "colour * colour", (ca * cb).parts(), pro, &arg);
        let mut t = ca; t *= cb; same(cx, "colour *= colour", t.parts(), pro, &arg);
        if b.iter().all(|&x| x != 0.) {
            same_d(cx, "colour / colour", (ca / cb).parts(), q(a, b), &arg);
            let mut t = ca; t /= cb; same_d(cx, "colour /= colour", t.parts(), q(a, b), &arg);
        }
        let dt = dot(d(a), d(b));
        let size = (0..3).map(|k| (a[k] * b[k]).abs() as f64).sum::<f64>();
        for (what, got) in [("vector . vector", va.dot(vb)), ("vector . normal", va.dot_n(nb)), ("normal . normal", na.dot(nb))] { cx.evals(1); cx.check((got as f64 - dt).abs() <= 3e-7 * size, || format!("{} of {:?} is {:e} instead of {:e}", what, arg, got, dt)); }
        let (got, want) = (va.cross(vb).parts(), cross(d(a), d(b)));
        cx.evals(1);
        cx.check((0..3).all(|k| { let (x, y) = ((k + 1) % 3, (k + 2) % 3); (got[k] as f64 - want[k]).abs() <= 3e-7 * ((a[x] * b[y]).abs() + (a[y] * b[x]).abs()) as f64 }), || format!("vector x vector of {:?} is {:?} instead of {:?}", arg, got, want));
        val(cx, "the distance", pa.distance(pb), mc::num::len(sub(d(a), d(b))), &arg);
        let (lo, hi) = (m(a, b, f32::min), m(a, b, f32::max));
        same(cx, "the lower corner", pa.min(pb).parts(), lo, &arg);
        same(cx, "the upper corner", pa.max(pb).parts(), hi, &arg);
        // a box of two corners
        let x = BBox3f::new(pa, pb);
        same(cx, "the lower corner of a box", x.min.parts(), lo, &arg);
        same(cx, "the upper corner of a box", x.max.parts(), hi, &arg);
        let dg = m(hi, lo, |x, y| x - y);
        same(cx, "the diagonal of a box", x.diagonal().parts(), dg, &arg);
        val(cx, "the surface of a box", x.surface_area(), 2. * (dg[0] as f64 * dg[1] as f64 + dg[1] as f64 * dg[2] as f64 + dg[0] as f64 * dg[2] as f64), &arg);
        let e = axis_no(x.max_extent());
        cx.check(dg.iter().all(|&w| w <= dg[e]), || format!("the longest side of the box {:?} is {}", arg, e));
        let (mid, r) = x.bounding_sphere();
        let mid = d(mid.parts());
        for k in 0..8 {
            let p = [0, 1, 2].map(|s| (if k >> s & 1 == 1 { hi } else { lo })[s] as f64);
            cx.check(mc::num::len(sub(p, mid)) <= r as f64 * (1. + 1e-6) + 1e-6, || format!("the sphere around the box {:?}, {:?} of radius {}, leaves out the corner {:?}", arg, mid, r, p));
        }
        cx.check(r as f64 <= mc::num::len(d(dg)) * 0.500001 + 1e-6, || format!("the sphere around the box {:?} has radius {}", arg, r));
        cx.sample(|| format!("{:?} {:?}", a, b));
    });

    // boxes and points, boxes and boxes
    let lb: Vec<f32> = vec![-1., -0.5, 0., 2.];
    let k = lb.len() as u64;
    c.family("boxes", "every box of a lattice with every point of a finer one, and every second box: union, union with a point, inside, overlap; non-trivial: neither contains the other", k.pow(12), |i, cx| {
        let mut g = Digits(i);
        let mut t = || [*g.of(&lb), *g.of(&lb), *g.of(&lb)];
        let (a, b, p, r) = (t(), t(), t(), t());
        let arg = (a, b, p, r);
        let (x, y) = (BBox3f::new(Point3f::of(a), Point3f::of(b)), BBox3f::new(Point3f::of(p), Point3f::of(r)));
        let (lo, hi, lo2, hi2) = (m(a, b, f32::min), m(a, b, f32::max), m(p, r, f32::min), m(p, r, f32::max));
        let u = x.union(&y);
        same(cx, "the lower corner of a union", u.min.parts(), m(lo, lo2, f32::min), &arg);
        same(cx, "the upper corner of a union", u.max.parts(), m(hi, hi2, f32::max), &arg);
        let u = x.union_point(Point3f::of(p));
        same(cx, "the lower corner of a union with a point", u.min.parts(), m(lo, p, f32::min), &arg);
        same(cx, "the upper corner of a union with a point", u.max.parts(), m(hi, p, f32::max), &arg);
        let ov = (0..3).all(|k| lo[k] <= hi2[k] && lo2[k] <= hi[k]);
        cx.check(x.overlaps(&y) == ov, || format!("overlaps of {:?} is {}", arg, !ov));
        let pt = p.map(|v| v * 0.75);
        let inside = (0..3).all(|k| lo[k] <= p[k] && p[k] <= hi[k]);
        cx.check(x.point_inside(Point3f::of(p)) == inside, || format!("inside of {:?} is {}", (a, b, p), !inside));
        let inside = (0..3).all(|k| lo[k] <= pt[k] && pt[k] <= hi[k]);
        cx.check(x.point_inside(Point3f::of(pt)) == inside, || format!("inside of {:?} is {}", (a, b, pt), !inside));
        if (0..3).any(|k| lo[k] < lo2[k]) && (0..3).any(|k| lo[k] > lo2[k]) { cx.nontrivial(); }
        cx.sample(|| format!("{:?}", arg));
    });

    // the plane
    let l2: Vec<f32> = vec![-3., -1.75, -1., -0.25, -0.0, 0.5, 1., 2.25, 7.];
    let k = l2.len() as u64;
    c.family("the plane", "every operation of points and vectors of the plane on all pairs and numbers of a lattice, in floats and whole numbers; rounding down and up, conversions between kinds; non-trivial: all four numbers differ", k.pow(4), |i, cx| {
        let mut g = Digits(i);
        let (a, b) = ([*g.of(&l2), *g.of(&l2)], [*g.of(&l2), *g.of(&l2)]);
        let arg = (a, b);
        if a[0] != a[1] && b[0] != b[1] && a[0] != b[0] && a[1] != b[1] { cx.nontrivial(); }
        let s = b[0];
        macro_rules! ok { ($what:expr, $got:expr, $w:expr) => {{ let (g, w) = ($got, $w); cx.evals(1); cx.check(g.x == w[0] && g.y == w[1], || format!("{} of {:?} is {:?} instead of {:?}", $what, arg, g, w)); }} }
        let f = |o: fn(f32, f32) -> f32| [o(a[0], b[0]), o(a[1], b[1])];
        let h = |o: fn(f32, f32) -> f32| [o(a[0], s), o(a[1], s)];
        macro_rules! plane { ($t:ident, $n:expr) => {{
            let (u, v) = ($t::new(a[0], a[1]), $t::new(b[0], b[1]));
            ok!(concat!($n, " -"), -u, [-a[0], -a[1]]);
            ok!(concat!($n, " +"), u + v, f(|x, y| x + y));
            { let mut t = u; t += v; ok!(concat!($n, " +="), t, f(|x, y| x + y)); }
            ok!(concat!($n, " + number"), u + s, h(|x, y| x + y));
            { let mut t = u; t += s; ok!(concat!($n, " += number"), t, h(|x, y| x + y)); }
            ok!(concat!($n, " - number"), u - s, h(|x, y| x - y));
            { let mut t = u; t -= s; ok!(concat!($n, " -= number"), t, h(|x, y| x - y)); }
            ok!(concat!($n, " * number"), u * s, h(|x, y| x * y));
            { let mut t = u; t *= s; ok!(concat!($n, " *= number"), t, h(|x, y| x * y)); }
            if s != 0. { let w = q([a[0], a[1], 0.], [s; 3]); let g = u / s; cx.check(near(g.x, w[0]) && near(g.y, w[1]), || format!("{} / number of {:?} is {:?}", $n, arg, g));
                let mut g = u; g /= s; cx.check(near(g.x, w[0]) && near(g.y, w[1]), || format!("{} /= number of {:?} is {:?}", $n, arg, g)); }
            ok!(concat!($n, " - ", $n), u - v, f(|x, y| x - y));
            for k in 0..2 { cx.check(u[k] == a[k], || format!("part {} of {:?} is {}", k, u, u[k])); let mut t = u; t[k] = s; let w = { let mut w = a; w[k] = s; w }; ok!("writing a part", t, w); }
        }} }
        type V2 = Vector2<f32>;
        plane!(V2, "vector");
        plane!(Point2f, "point");
        let (u, v, w) = (Point2f::new(a[0], a[1]), Point2f::new(b[0], b[1]), V2::new(b[0], b[1]));
        ok!("point + vector", u + w, f(|x, y| x + y));
        ok!("point - vector", u - w, f(|x, y| x - y));
        { let mut t = u; t += w; ok!("point += vector", t, f(|x, y| x + y)); }
        { let mut t = u; t -= w; ok!("point -= vector", t, f(|x, y| x - y)); }
        { let mut t = V2::new(a[0], a[1]); t -= w; ok!("vector -= vector", t, f(|x, y| x - y)); }
        ok!("the lower corner", u.min(v), f(f32::min));
        ok!("the upper corner", u.max(v), f(f32::max));
        ok!("rounding down", u.floor(), a.map(|x| x.floor()));
        ok!("rounding up", u.ceil(), a.map(|x| x.ceil()));
        // whole numbers
        let ia = a.map(|x| x as i32);
        ok!("whole numbers", Point2i::from(u), ia);
        ok!("whole numbers to floats", Point2f::from(Point2i::new(ia[0], ia[1])), ia.map(|x| x as f32));
        if a.iter().all(|&x| x >= 0.) {
            ok!("counting numbers", Point2u::from(u), a.map(|x| x as u32));
            ok!("counting numbers of whole numbers", Point2u::from(Point2i::new(ia[0], ia[1])), ia.map(|x| x as u32));
            ok!("counting numbers to floats", Point2f::from(Point2u::new(ia[0] as u32, ia[1] as u32)), ia.map(|x| x as f32));
            ok!("counting numbers to whole numbers", Point2i::from(Point2u::new(ia[0] as u32, ia[1] as u32)), ia);
        }
        let ib = b.map(|x| x as i32);
        let (pi, qi) = (Point2i::new(ia[0], ia[1]), Point2i::new(ib[0], ib[1]));
        ok!("+ in whole numbers", pi + qi, [ia[0] + ib[0], ia[1] + ib[1]]);
        ok!("- in whole numbers", pi - qi, [ia[0] - ib[0], ia[1] - ib[1]]);
        ok!("min in whole numbers", pi.min(qi), [ia[0].min(ib[0]), ia[1].min(ib[1])]);
        ok!("max in whole numbers", pi.max(qi), [ia[0].max(ib[0]), ia[1].max(ib[1])]);
        // boxes of the plane, points inside in order
        let bx = BBox2i::new(pi, qi);
        let (lo, hi) = ([ia[0].min(ib[0]), ia[1].min(ib[1])], [ia[0].max(ib[0]), ia[1].max(ib[1])]);
        ok!("the lower corner of a box", bx.min, lo);
        ok!("the upper corner of a box", bx.max, hi);
        ok!("the diagonal of a box", bx.diagonal(), [hi[0] - lo[0], hi[1] - lo[1]]);
        cx.check(bx.area() == (hi[0] - lo[0]) * (hi[1] - lo[1]), || format!("the area of {:?} is {}", arg, bx.area()));
        let mut want = vec![];
        for y in lo[1]..hi[1] { for x in lo[0]..hi[0] { want.push([x, y]); } }
        let got: Vec<[i32; 2]> = bx.iter().map(|p| [p.x, p.y]).collect();
        cx.check(got == want, || format!("the points of the box {:?} {:?} are {:?}", lo, hi, got));
        let bf = BBox2f::new(u, v);
        let (flo, fhi) = (f(f32::min), f(f32::max));
        ok!("the lower corner of a box", bf.min, flo);
        ok!("the upper corner of a box", bf.max, fhi);
        ok!("the diagonal of a box", bf.diagonal(), [fhi[0] - flo[0], fhi[1] - flo[1]]);
        cx.check(bf.area() == (fhi[0] - flo[0]) * (fhi[1] - flo[1]), || format!("the area of {:?} is {}", arg, bf.area()));
        let t = BBox2i::from(bf); ok!("the lower corner of a box in whole numbers", t.min, flo.map(|x| x as i32)); ok!("the upper corner of a box in whole numbers", t.max, fhi.map(|x| x as i32));
        let t = BBox2f::from(bx); ok!("the lower corner of a box in floats", t.min, lo.map(|x| x as f32)); ok!("the upper corner of a box in floats", t.max, hi.map(|x| x as f32));
        if flo.iter().all(|&x| x >= 0.) {
            let t = BBox2u::from(bf); ok!("the lower corner of a box in counting numbers", t.min, flo.map(|x| x as u32)); ok!("the upper corner of a box in counting numbers", t.max, fhi.map(|x| x as u32));
            let t = BBox2u::from(bx); ok!("the lower corner of a box in counting numbers", t.min, lo.map(|x| x as u32)); ok!("the upper corner of a box in counting numbers", t.max, hi.map(|x| x as u32));
            let t = BBox2f::from(BBox2u::from(bx)); ok!("the upper corner of a box back in floats", t.max, hi.map(|x| x as f32));
        }
        cx.sample(|| format!("{:?}", arg));
    });

    c.case("axes", "the next, previous and other axes of each axis", |cx| {
        for k in 0..3 {
            cx.nontrivial();
            cx.evals(3);
            cx.check(axis_no(AX[k].next()) == (k + 1) % 3, || format!("next of axis {}", k));
            cx.check(axis_no(AX[k].prev()) == (k + 2) % 3, || format!("prev of axis {}", k));
            let (a, b) = AX[k].others();
            let mut o = [axis_no(a), axis_no(b)];
            o.sort();
            let w: Vec<usize> = (0..3).filter(|&j| j != k).collect();
            cx.check(o[..] == w[..], || format!("the others of axis {} are {:?}", k, o));
        }
    });
    // lengths over magnitudes
    let mags: Vec<f32> = [-60, -58, -50, -40, -30, -24, -20].into_iter().chain(-17..=17).chain([20, 24, 30, 40, 50, 58, 60]).map(|e| 2f32.powi(e)).collect();
    c.family("lengths at all sizes", "vectors with parts of any two magnitudes between 2^-60 and 2^60: length, normalising, luminance; non-trivial: all", (mags.len() * mags.len() * 9) as u64, |i, cx| {
        let mut g = Digits(i);
        let (s, t, k) = (*g.of(&mags), *g.of(&mags), g.take(9));
        cx.nontrivial();
        let mut a = [0f32; 3];
        a[k % 3] += 1.25 * s;
        a[(k + 1 + k / 3 % 2) % 3] -= 0.75 * t;
        if k >= 6 { a[(k + 2) % 3] += s; }
        let l = mc::num::len(d(a));
        for (what, got) in [("vector", Vector3f::of(a).length()), ("normal", Normal3f::of(a).length()), ("point", Point3f::of(a).length()), ("distance", Point3f::of(a).distance(Point3f::default()))] { val(cx, what, got, l, &a); }
        for (what, got) in [("vector", Vector3f::of(a).normalize().parts()), ("normal", Normal3f::of(a).normalize().parts())] { same_d(cx, what, got, norm(d(a)), &a); }
        cx.sample(|| format!("{:?}", a));
    });
    c.finish();
}
