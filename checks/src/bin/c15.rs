//! C15: every hit carries a finite, correctly oriented local frame.
use checks::*;
use mc::{Check, Cx, Digits, Level};
use pt::api::*;
use pt::interaction::Interaction;
use pt::ray::Ray;
use pt::reflection::{BxDF, BxDFFlag, BSDF, DIFFUSE, REFLECTION, TRANSMISSION};
use pt::shape::Shape;
use pt::spectrum::Spectrum;
use std::sync::Arc;

const INF: f32 = f32::INFINITY;
fn sub(a: [f64; 3], b: [f64; 3]) -> [f64; 3] { [a[0] - b[0], a[1] - b[1], a[2] - b[2]] }
fn cross(a: [f64; 3], b: [f64; 3]) -> [f64; 3] { [a[1] * b[2] - a[2] * b[1], a[2] * b[0] - a[0] * b[2], a[0] * b[1] - a[1] * b[0]] }
fn dot(a: [f64; 3], b: [f64; 3]) -> f64 { a[0] * b[0] + a[1] * b[1] + a[2] * b[2] }
fn len(a: [f64; 3]) -> f64 { dot(a, a).sqrt() }
fn unit(a: [f64; 3]) -> [f64; 3] { let l = len(a); a.map(|x| x / l) }
fn mad(o: [f64; 3], d: [f64; 3], t: f64) -> [f64; 3] { [o[0] + t * d[0], o[1] + t * d[1], o[2] + t * d[2]] }
fn finite(a: [f64; 3]) -> bool { a.iter().all(|x| x.is_finite()) }
fn near(a: [f64; 3], b: [f64; 3], tol: f64) -> bool { len(sub(a, b)) <= tol }

/// A lobe that tells which local directions it is asked about and sends light into a given one.
struct Probe(Vector3f);
impl BxDF for Probe {
    fn flag(&self) -> BxDFFlag { REFLECTION | TRANSMISSION | DIFFUSE }
    fn f(&self, _: Vector3f, wi: Vector3f) -> Spectrum { Spectrum::new(wi.x, wi.y, wi.z) }
    fn sample_f(&self, _: Vector3f, _: Point2f) -> (Vector3f, Spectrum, f32) { (self.0, Spectrum::from(1.), 1.) }
    fn pdf(&self, _: Vector3f, _: Vector3f) -> f32 { 1. }
}
fn to_world(i: &Interaction, v: [f64; 3]) -> [f64; 3] {
    let mut b = BSDF::new(i);
    b.add(Probe(v3(v)));
    let n = a3(Vector3f::from(i.sn));
    // an outgoing direction that is not in the surface
    a3(b.sample_f(v3(unit(mad([0.1, 0.2, 0.15], n, 3.))), Point2f::new(0.3, 0.6)).0)
}
fn to_local(i: &Interaction, v: [f64; 3]) -> [f64; 3] {
    let mut b = BSDF::new(i);
    b.add(Probe(v3([0., 0., 1.])));
    let n = a3(Vector3f::from(i.sn));
    let s = b.f(v3(unit(mad([0.1, 0.2, 0.15], n, 3.))), v3(v));
    asp(s)
}

fn frame(i: &Interaction, what: &dyn Fn() -> String, cx: &mut Cx) -> bool {
    let (n, sn) = (an(i.n), an(i.sn));
    if !finite(ap(i.p)) || !finite(a3(i.p_err)) || !(i.uv.x.is_finite() && i.uv.y.is_finite()) {
        cx.fail(format!("{}: point {:?}, error {:?}, surface position {:?}", what(), i.p, i.p_err, i.uv));
        return false;
    }
    if !finite(n) || !finite(sn) || (len(n) - 1.).abs() > 1e-5 || (len(sn) - 1.).abs() > 1e-5 {
        cx.fail(format!("{}: normals {:?} and {:?}", what(), n, sn));
        return false;
    }
    if dot(n, sn) < -1e-6 {
        cx.fail(format!("{}: normals {:?} and {:?} lie in opposite hemispheres", what(), n, sn));
        return false;
    }
    if !finite(a3(i.dpdu)) || !finite(a3(i.dpdv)) {
        cx.fail(format!("{}: tangents {:?} and {:?}", what(), i.dpdu, i.dpdv));
        return false;
    }
    let e = [[1., 0., 0.], [0., 1., 0.], [0., 0., 1.]];
    let w = e.map(|v| to_world(i, v));
    for a in 0..3 { for b in 0..3 {
        let d = dot(w[a], w[b]) - (a == b) as i32 as f64;
        if !(d.abs() <= 1e-4) {
            cx.fail(format!("{}: the frame {:?} is not orthonormal", what(), w));
            return false;
        }
    } }
    if !near(w[2], sn, 1e-5) { cx.fail(format!("{}: the frame's third axis is {:?}, the shading normal {:?}", what(), w[2], sn)); return false; }
    for v in [[0.3, -0.5, 0.8], [-0.9, 0.1, -0.2], [0., 1., 0.], [1., 0., 0.]] {
        let l = to_local(i, v);
        let back = to_world(i, l);
        if !near(v, back, 3e-4) {
            cx.fail(format!("{}: {:?} is {:?} in local coordinates, which is {:?} in the world", what(), v, l, back));
            return false;
        }
    }
    true
}

fn main() {
    let mut c = Check::new("C15", Level::Exploration);
    // spheres: hits everywhere, the poles and their surroundings in particular
    let spheres: [([f64; 3], f64); 10] = [([1e6, -2e6, 3e6], 0.01), ([0., 0., 0.], 1e-8), ([0., 0., 0.], 1e8), ([-3e4, 7e3, 1e5], 1.), ([0., 0., 0.], 1.), ([2., -3., 1.], 2.), ([0.1, 0.2, 0.3], 0.01), ([-40., 30., 100.], 25.), ([0., 0., 0.], 1000.), ([5., 5., 5.], 0.5)];
    let xs: Vec<f64> = {
        let mut v = vec![0., 1e-38, 1e-30, 3e-23, 1e-20, 1e-17, 1e-12, 1e-9, 1e-7, 1e-6, 1e-5, 1e-4, 1e-3, 0.01, 0.1, 0.3, 0.7, 0.999];
        if c.thorough() { v.extend((1..60).map(|k| k as f64 / 60.)); v.extend((2..45).map(|k| 10f64.powi(-k) * 3.7)); }
        v.extend(v.clone().into_iter().map(|x| -x));
        v
    };
    c.family("sphere", "10 spheres (radii 1e-8 to 1e8, some far from the origin) hit from outside along each axis from both sides and from the centre outwards, at a grid of offsets from the axis from 1e-38 to the rim; non-trivial: hits", (10 * 6 * 2 * xs.len()) as u64, |i, cx| {
        let mut d = Digits(i);
        let ((ce, r), axis, inside, x) = (*d.of(&spheres), d.take(6), d.take(2), *d.of(&xs));
        for y in xs.iter() {
            let place = |u: f64, v: f64, w: f64| { let mut q = [0.; 3]; q[axis % 3] = w; q[(axis + 1) % 3] = u; q[(axis + 2) % 3] = v; q };
            let sg = if axis < 3 { 1. } else { -1. };
            let ce = ap(p3(ce));
            let s = Sphere::new(p3(ce), r as f32, Arc::new(NoMaterial));
            let (o, dir) = if inside == 1 { (ce, place(x, *y, sg)) } else { (mad(ce, place(x, *y, sg * 3.), r), place(0., 0., -sg)) };
            let ray = Ray { origin: p3(o), direction: v3(dir), t_max: INF };
            let what = || format!("sphere {:?} radius {}, ray {:?} + t {:?}", ce, r, ap(ray.origin), a3(ray.direction));
            cx.evals(1);
            if let Some((h, _)) = s.intersect(&ray) {
                cx.nontrivials(1);
                if !frame(&h, &what, cx) { return; }
                let out = unit(sub(ap(h.p), ap(p3(ce))));
                let tol = 2e-6 * (1. + len(ce) / r);
                if tol < 0.5 && !near(an(h.n), out, tol) || !near(an(h.sn), an(h.n), 1e-6) { cx.fail(format!("{}: normals {:?} and {:?}, outwards is {:?}", what(), an(h.n), an(h.sn), out)); return; }
                if dot(an(h.n), unit(a3(h.dpdu))).abs() > 1e-4 || !(len(a3(h.dpdv)) > 0.) || dot(an(h.n), unit(a3(h.dpdv))).abs() > 1e-3 {
                    cx.fail(format!("{}: the tangents {:?}, {:?} are not tangent to the surface with normal {:?}", what(), h.dpdu, h.dpdv, an(h.n)));
                    return;
                }
                if !near(a3(h.wo), dir.map(|v| -(v as f32) as f64), 1e-6) { cx.fail(format!("{}: the outgoing direction is {:?}", what(), h.wo)); return; }
            }
        }
        cx.sample(|| format!("sphere {:?} radius {}, axis {}, offset {}", ce, r, axis, x));
    });
    // triangles with every assignment of vertex normals from a set
    let shapes: [[[f64; 3]; 3]; 4] = [
        [[0., 0., 0.], [1., 0., 0.], [0., 1., 0.]],
        [[0.1, 0.2, 0.3], [0.9, -0.4, 0.77], [-0.3, 0.8, 0.5]],
        [[10., 30., -20.], [10., 35., -21.], [10., 31., -14.]],
        [[-2., 1., 0.], [1., 1., 3.], [0., 1., -5.]],
    ];
    let kinds = 9usize;
    let bary = [[1. / 3., 1. / 3., 1. / 3.], [0.5, 0.25, 0.25], [0.25, 0.5, 0.25], [0.25, 0.25, 0.5], [0.5, 0.5, 0.], [0.5, 0., 0.5], [0., 0.5, 0.5], [0.8125, 0.125, 0.0625], [0.1, 0.7, 0.2]];
    let ns = c.pick(9usize, 25);
    // size, place, length of the vertex normals
    let sizes: Vec<(f64, [f64; 3], f64)> = c.pick(
        vec![(1., [0.; 3], 1.), (2f64.powi(-24), [0.; 3], 2f64.powi(-30)), (2f64.powi(24), [0.; 3], 2f64.powi(30)), (0.125, [300., -200., 50.], 0.01)],
        vec![(1., [0.; 3], 1.), (2f64.powi(-24), [0.; 3], 2f64.powi(-30)), (2f64.powi(24), [0.; 3], 2f64.powi(30)), (0.125, [300., -200., 50.], 0.01), (2f64.powi(-12), [0.; 3], 2f64.powi(-12)), (2f64.powi(12), [0.; 3], 2f64.powi(12)), (1., [0.; 3], 2f64.powi(-34)), (1., [0.; 3], 2f64.powi(40))]);
    c.family("triangle", "4 triangles at 4 sizes and places (thorough 8; 2^-24 to 2^24, vertex normals of lengths 2^-30 to 2^30) in every order of corners, both orientations, no vertex normals or every assignment from 9 normals (along and against the winding, tilted, tangent along each side, unnormalised, zero); hits from both sides at 9 points and hits at sampled points; non-trivial: hits", (4 * 6 * 2 * (1 + kinds * kinds * kinds)) as u64 * sizes.len() as u64, |i, cx| {
        let mut d = Digits(i);
        let (sc, at, nl) = *d.of(&sizes);
        let (sh, perm, rev, vn) = (*d.of(&shapes), *d.of(&[[0, 1, 2], [1, 2, 0], [2, 0, 1], [0, 2, 1], [2, 1, 0], [1, 0, 2]]), d.take(2) == 1, d.take(1 + kinds * kinds * kinds));
        let v = perm.map(|q| ap(p3(mad(at, sh[q], sc))));
        let face = unit(cross(sub(v[1], v[0]), sub(v[2], v[0])));
        let tang = unit(sub(v[1], v[0]));
        let cands: [[f64; 3]; 9] = [face, face.map(|x| -x), unit(mad(face, tang, 0.7)), unit(mad(face, unit(sub(v[2], v[0])), -2.5)), tang, tang.map(|x| -x), unit(sub(v[2], v[1])), face.map(|x| 3. * x), [0.; 3]];
        let normals = if vn == 0 { None } else { let mut d = Digits(vn as u64 - 1); Some([0, 1, 2].map(|_| cands[d.take(kinds)].map(|x| x * nl))) };
        let tri = Triangle::new([p3(v[0]), p3(v[1]), p3(v[2])], normals.map(|n| n.map(|x| n3(x))), rev, Arc::new(NoMaterial));
        let who = || format!("triangle {:?}, vertex normals {:?}, reversed {}", v, normals, rev);
        // the normals expected at barycentric coordinates; None: rounding decides
        let expect = |b: [f64; 3]| -> Option<([f64; 3], [f64; 3], f64)> {
            let g = if rev { -1. } else { 1. };
            match normals {
                None => Some((face.map(|x| g * x), face.map(|x| g * x), 3e-3)),
                Some(m) => {
                    let m = m.map(|x| an(n3(x)));
                    let s = [0, 1, 2].map(|a| b[0] * m[0][a] + b[1] * m[1][a] + b[2] * m[2][a]);
                    if len(s) < 1e-3 * nl {
                        // nothing to interpolate: the geometric normal stands in
                        return None;
                    }
                    let tol = 3e-3 + 2e-6 * (1. + len(at) / sc) * nl / len(s);
                    let s = unit(s).map(|x| g * x);
                    let k = dot(s, face);
                    if k.abs() < 1e-4 + tol - 3e-3 { return None; }
                    Some((face.map(|x| k.signum() * x), s, tol))
                }
            }
        };
        let check = |h: &Interaction, b: [f64; 3], what: &dyn Fn() -> String, cx: &mut Cx| -> bool {
            if !frame(h, what, cx) { return false; }
            if (dot(an(h.n), face).abs() - 1.).abs() > 1e-5 { cx.fail(format!("{}: the geometric normal {:?} is not perpendicular to the triangle", what(), an(h.n))); return false; }
            if let Some((n, sn, tol)) = expect(b) {
                if !near(an(h.n), n, 1e-4) || !near(an(h.sn), sn, tol) { cx.fail(format!("{}: normals {:?} and {:?}, expected {:?} and {:?}", what(), an(h.n), an(h.sn), n, sn)); return false; }
            }
            true
        };
        for b in bary.iter() { for side in [1., -1.] {
            let p = [0, 1, 2].map(|a| b[0] * v[0][a] + b[1] * v[1][a] + b[2] * v[2][a]);
            // half of the rays oblique
            let dir = mad(face.map(|x| side * x), tang, b[0] * 0.5);
            let ray = Ray { origin: p3(mad(p, dir, -2. * sc)), direction: v3(dir), t_max: INF };
            cx.evals(1);
            if let Some((h, _)) = tri.intersect(&ray) {
                cx.nontrivials(1);
                let what = || format!("{}, ray {:?} + t {:?}", who(), ap(ray.origin), a3(ray.direction));
                if !check(&h, *b, &what, cx) { return; }
                if normals.is_none() {
                    let duv = unit(sub(v[1], v[0]));
                    if !near(unit(a3(h.dpdu)), duv, 1e-4) { cx.fail(format!("{}: the tangent along u is {:?}, expected along {:?}", what(), h.dpdu, duv)); return; }
                }
            }
        } }
        // sampled points carry the normal of a hit there
        for k in 0..ns * ns {
            let u = Point2f::new(((k % ns) as f32 + 0.5) / ns as f32, ((k / ns) as f32 + 0.5) / ns as f32);
            let q = tri.sample(u);
            let what = || format!("{}, sample {:?} at {:?}", who(), u, q.p);
            if !finite(ap(q.p)) || !finite(a3(q.p_err)) || !finite(an(q.n)) || (len(an(q.n)) - 1.).abs() > 1e-5 { cx.fail(format!("{}: error {:?}, normal {:?}", what(), q.p_err, q.n)); return; }
            let ray = Ray { origin: p3(mad(ap(q.p), face, 2. * sc)), direction: v3(face.map(|x| -x)), t_max: INF };
            cx.evals(1);
            if let Some((h, _)) = tri.intersect(&ray) {
                // barycentrics
                let p = ap(q.p);
                let area = len(cross(sub(v[1], v[0]), sub(v[2], v[0])));
                let b1 = dot(cross(sub(v[0], v[2]), sub(p, v[2])), face) / area;
                let b2 = dot(cross(sub(v[1], v[0]), sub(p, v[0])), face) / area;
                if expect([1. - b1 - b2, b1, b2]).is_none() { continue; }
                cx.nontrivials(1);
                if !near(an(h.n), an(q.n), 1e-4) { cx.fail(format!("{}: the sampled point has normal {:?}, a hit there {:?}", what(), an(q.n), an(h.n))); return; }
            } else { cx.fail(format!("{}: a ray straight at the sampled point misses the triangle", what())); return; }
        }
        cx.sample(|| who());
    });
    c.finish();
}
