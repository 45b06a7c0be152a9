//! C30: surface coordinates, tangents and textures belong to the point hit.
use checks::*;
use mc::num::*;
use mc::{Check, Cx, Digits, Level};
use pt::api::*;
use pt::interaction::Interaction;
use pt::ray::Ray;
use pt::reflection::{BxDF, BxDFFlag, BSDF, DIFFUSE, REFLECTION, TRANSMISSION};
use pt::scene::Scene;
use pt::vector::Normal3f;
use std::f64::consts::{PI, TAU};
use std::sync::Arc;

/// A lobe that shows the local direction it is asked about.
struct Probe;
impl BxDF for Probe {
    fn flag(&self) -> BxDFFlag { REFLECTION | TRANSMISSION | DIFFUSE }
    fn f(&self, _: Vector3f, wi: Vector3f) -> Spectrum { Spectrum::new(wi.x, wi.y, wi.z) }
    fn sample_f(&self, _: Vector3f, _: Point2f) -> (Vector3f, Spectrum, f32) { Default::default() }
    fn pdf(&self, _: Vector3f, _: Vector3f) -> f32 { 1. }
}
fn local(i: &Interaction, v: V) -> V {
    let mut b = BSDF::new(i);
    b.add(Probe);
    let n = an(i.sn);
    asp(b.f(v3(norm(add([0.1, 0.2, 0.15], mul(n, 3.)))), v3(v)))
}

const YES: [f32; 3] = [0.25, 0.5, 0.75];
const NO: [f32; 3] = [0.875, 0.125, 0.375];
/// Matte, a checkerboard over the surface coordinates.
fn board(su: f32, sv: f32, du: f32, dv: f32) -> Arc<dyn Material> {
    let s = |v: [f32; 3]| Spectrum::new(v[0], v[1], v[2]);
    Arc::new(LambertianReflectionMaterial::new(Arc::new(CheckerboardTexture::new(UVMapping2D::new(su, sv, du, dv), s(YES), s(NO)))))
}
/// The same in space.
fn blocks(t: Transform) -> Arc<dyn Material> {
    let s = |v: [f32; 3]| Spectrum::new(v[0], v[1], v[2]);
    Arc::new(LambertianReflectionMaterial::new(Arc::new(Checkerboard3DTexture::new(IdentityMapping3D::new(t), s(YES), s(NO)))))
}
fn scene(shape: impl Shape + 'static) -> Scene<KdTree> {
    let mut b = Builder::new();
    b.add_shape(shape);
    b.construct(|s| KdTree::new(s, None))
}
/// Does the hit show the colour of the cell the coordinates lie in?
fn cell(i: &Interaction, st: &[f64], tol: &[f64], what: &dyn Fn() -> String, cx: &mut Cx) -> bool {
    if st.iter().zip(tol).any(|(x, t)| (x - x.round()).abs() <= *t) { cx.count("next to a border of the checkerboard", 1); return true; }
    let want = if st.iter().map(|x| x.floor() as i64).sum::<i64>().rem_euclid(2) == 0 { YES } else { NO };
    let b = i.compute_scattering();
    let n = an(i.n);
    let f = asp(b.f(v3(n), v3(norm(add(mul(n, 2.), [0.1, -0.2, 0.15])))));
    cx.evals(1);
    if !close(mul(f, PI), want.map(|x| x as f64), 1e-5) { cx.fail(format!("{}: the surface scatters {:?}, its cell at {:?} has {:?}", what(), mul(f, PI), st, want)); return false; }
    true
}
/// The scattering frame's first axis lies along the first tangent.
fn axis(i: &Interaction, what: &dyn Fn() -> String, cx: &mut Cx) -> bool {
    let t = norm(a3(i.dpdu));
    let l = local(i, t);
    let up = local(i, an(i.sn));
    if !close(l, [1., 0., 0.], 1e-4) || !close(up, [0., 0., 1.], 1e-4) { cx.fail(format!("{}: the first tangent {:?} is {:?} in the scattering frame, the shading normal {:?}", what(), t, l, up)); return false; }
    true
}

fn main() {
    let mut c = Check::new("C30", Level::Exploration);

    let spheres: [(V, f64); 6] = [([0., 0., 0.], 1.), ([2., -3., 1.], 2.), ([0.1, 0.2, 0.3], 0.05), ([-40., 30., 100.], 25.), ([0., 0., 0.], 1000.), ([5., 5., 5.], 0.5)];
    let nth = c.pick(64usize, 200);
    let nph = c.pick(128usize, 400);
    c.family("spheres", "6 spheres hit at a lattice of azimuths (both sides of the seam included) and polar angles (down to 1e-4 from the poles), from outside, straight and aslant, and from the centre: azimuth in [0, 2 pi], polar angle in [0, pi], tangents along growing azimuth and polar angle, the frame's first axis, and the cell of a checkerboard over the coordinates or in space; non-trivial: hits", (spheres.len() * nth * 3) as u64, |i, cx| {
        let mut d = Digits(i);
        let ((ce, r), kt, from) = (*d.of(&spheres), d.take(nth), d.take(3));
        let th = match kt { 0 => 1e-4, 1 => 2e-3, 2 => 0.02, k if k == nth - 1 => PI - 1e-4, k if k == nth - 2 => PI - 3e-3, k => (k as f64 - 1.5) / (nth - 4) as f64 * PI };
        let ce = ap(p3(ce));
        let r = r as f32 as f64;
        let (su, sv) = (16. / TAU as f32 * 1.01, 9. / PI as f32);
        let flat = scene(Sphere::new(p3(ce), r as f32, board(su, sv, 0.3, -0.2)));
        let k3 = 3.1 / r as f32;
        let solid = scene(Sphere::new(p3(ce), r as f32, blocks(Transform::scale(k3, k3, k3))));
        for kp in 0..nph + 6 {
            let ph = if kp < nph { (kp as f64 + 0.37) / nph as f64 * TAU } else { [0., 1e-3, -1e-3, 1e-5, -1e-5, PI][kp - nph] };
            let out = [th.sin() * ph.cos(), th.sin() * ph.sin(), th.cos()];
            let at = add(ce, mul(out, r));
            let side = norm(cross(out, [0.3, -0.8, 0.52]));
            let o = match from { 0 => add(at, mul(out, 2. * r)), 1 => add(add(at, mul(out, 1.5 * r)), mul(side, r)), _ => add(ce, mul(side, 0.1 * r)) };
            let ray = Ray { origin: p3(o), direction: v3(norm(sub(at, o))), t_max: f32::INFINITY };
            // where the rounded ray meets the sphere
            let (o, dir) = (sub(ap(ray.origin), ce), a3(ray.direction));
            let (a, b, q) = (dot(dir, dir), dot(dir, o), dot(o, o) - r * r);
            let s = (b * b - a * q).max(0.).sqrt();
            let t = if from < 2 { (-b - s) / a } else { (-b + s) / a };
            let l = add(o, mul(dir, t));
            let what = || format!("sphere {:?} radius {}, ray {:?} + t {:?}", ce, r, ap(ray.origin), a3(ray.direction));
            let hit = match flat.intersect(&ray) { Some(h) => h, None => { cx.fail(format!("{}: no hit", what())); return; } };
            cx.evals(1);
            cx.nontrivials(1);
            let err = 8e-7 * (1. + len(ce) / r * 0.3);
            let rho = (l[0] * l[0] + l[1] * l[1]).sqrt() / r;
            let (phi, theta) = (l[1].atan2(l[0]).rem_euclid(TAU), (l[2] / r).clamp(-1., 1.).acos());
            let (u, v) = (hit.uv.x as f64, hit.uv.y as f64);
            let ptol = 1e-6 + 2. * err / rho;
            let ttol = 1e-6 + 2. * err / rho.max(err.sqrt());
            let dphi = (u - phi + PI).rem_euclid(TAU) - PI;
            if !(u >= 0. && u <= TAU * (1. + 1e-7)) || !(dphi.abs() <= ptol) { cx.fail(format!("{}: the first surface coordinate is {}, the azimuth {}", what(), u, phi)); return; }
            if !(v >= 0. && v <= PI * (1. + 1e-7)) || !((v - theta).abs() <= ttol) { cx.fail(format!("{}: the second surface coordinate is {}, the polar angle {}", what(), v, theta)); return; }
            if rho > 1e-5 {
                let (cu, cv) = (norm(a3(hit.dpdu)), norm(a3(hit.dpdv)));
                let wu = [-l[1] / rho / r, l[0] / rho / r, 0.];
                let wv = [l[2] / r * l[0] / rho / r, l[2] / r * l[1] / rho / r, -rho];
                if !close(cu, wu, 2. * ptol + 1e-5) || !close(cv, norm(wv), 2. * ptol + 1e-5) { cx.fail(format!("{}: the tangents lie along {:?} and {:?}, azimuth and polar angle grow along {:?} and {:?}", what(), cu, cv, wu, wv)); return; }
            }
            if !axis(&hit, &what, cx) { return; }
            // on the seam the coordinate may be either
            if dphi.abs() < 1e-3 && (u - phi).abs() < 1. {
                let st = [phi * su as f64 + 0.3f32 as f64, theta * sv as f64 + -0.2f32 as f64];
                if !cell(&hit, &st, &[ptol * su as f64 + 1e-5, ttol * sv as f64 + 1e-5], &what, cx) { return; }
            }
            let hit = match solid.intersect(&ray) { Some(h) => h, None => { cx.fail(format!("{}: no hit", what())); return; } };
            let st: Vec<f64> = (0..3).map(|a| (l[a] + ce[a]) * k3 as f64).collect();
            let tol = (err * r + 3e-7 * len(ce)) * k3 as f64 * 2. + 1e-6;
            if !cell(&hit, &st, &[tol; 3], &what, cx) { return; }
        }
        cx.sample(|| format!("sphere {:?} radius {}, polar angle {}", ce, r, th));
    });

    // triangles
    let base: Vec<[V; 3]> = vec![
        [[0., 0., 0.], [1., 0., 0.], [0., 1., 0.]], [[0., 0., 1.], [0., 2., 0.], [3., 0., 0.]], [[1., -1., 2.], [4., 0.5, -1.], [-2., 3., 0.25]],
        [[100., 50., -20.], [101., 53., -22.], [98., 51., -17.]], [[0.01, 0.02, 0.], [0.03, 0.01, 0.015], [0.02, 0.04, -0.01]], [[-500., 0., 300.], [700., 100., -200.], [50., 900., 400.]],
        [[0., 0., 0.], [4., 0., 0.1], [4.1, 0.2, 0.]], [[0., 1., 0.], [0., 0., 1.], [0., -1., -1.]],
        [[1e-4, 2e-4, 0.], [3e-4, 1e-4, 1.5e-4], [2e-4, 4e-4, -1e-4]], [[0., 0., 0.], [0., 2e-6, 3e-6], [-1e-6, 0., 2e-6]],
    ];
    let perms = [[0usize, 1, 2], [1, 2, 0], [2, 0, 1], [0, 2, 1], [2, 1, 0], [1, 0, 2]];
    let nb = c.pick(13usize, 40);
    let ns: [Option<[V; 3]>; 9] = [None, Some([[0., 0., 1.]; 3]), Some([[0.6, 0., 0.8], [0., 0.6, 0.8], [-0.6, 0., 0.8]]), Some([[0., 0., -1.]; 3]), Some([[0.3, 0.4, 0.866], [0.3, -0.4, 0.866], [0., 0., 1.]]), Some([[1., 0., 0.2], [0.9, 0.1, 0.3], [0.8, 0.3, 0.1]]), Some([[-0.6, 0.1, -0.8], [0., 0.6, -0.8], [0.2, 0.2, -0.9]]), Some([[0.1, 0.9, 0.2], [0.2, 1., 0.1], [-0.2, 0.8, 0.2]]), Some([[2., 0.5, 3.], [0.3, 0.1, 0.5], [1., -1., 5.]])];
    let angles: [V; 4] = [[0., 0., 1.], [0.5, 0.3, 1.], [-0.2, -0.9, 1.], [0.1, 0.2, -1.]];
    c.family("triangles", "10 triangles x 6 orders of their corners x both orientations, without vertex normals or with 8 sets of them (agreeing, opposing, tilted, not of unit length), hit at a lattice of points from 4 directions: coordinates interpolated from (0, 0), (1, 0), (1, 1) at the corners; without vertex normals tangents equal to the derivatives of the point, with them the first tangent along the derivative as far as the shading normal allows and the second at right angles to both; the frame's first axis; the cell of a checkerboard over the coordinates or in space; non-trivial: hits", (base.len() * perms.len() * 2 * ns.len() * angles.len()) as u64, |i, cx| {
        let mut d = Digits(i);
        let (v, pm, rev, vn, ang) = (*d.of(&base), *d.of(&perms), d.take(2) == 1, *d.of(&ns), *d.of(&angles));
        let v = pm.map(|k| ap(p3(v[k])));
        let (e1, e2) = (sub(v[1], v[0]), sub(v[2], v[0]));
        let size = len(e1).max(len(e2));
        let g = norm(cross(e1, e2));
        let (x, y) = { let a = norm(e1); (a, cross(g, a)) };
        let world = |w: V| add(add(mul(x, w[0]), mul(y, w[1])), mul(g, w[2]));
        // the normals are given against the first edge and the normal
        let n32: Option<[Normal3f; 3]> = vn.map(|n| n.map(|w| n3(world(w))));
        let make = |m: Arc<dyn Material>| scene(Triangle::new(v.map(p3), n32, rev, m));
        let flat = make(board(7., 5., 0.3, -0.2));
        let k3 = 4.3 / size as f32;
        let solid = make(blocks(Transform::scale(k3, k3, k3)));
        let far = v.iter().map(|p| len(*p)).fold(0., f64::max) / size;
        // how flat the triangle is
        let thin = len(cross(e1, e2)) / (size * size);
        for ka in 0..nb { for kb in 0..nb - ka {
            let (b1, b2) = ((ka as f64 + 0.31) / nb as f64, (kb as f64 + 0.29) / nb as f64);
            let b0 = 1. - b1 - b2;
            if b0 < 0.01 { continue; }
            let at = add(add(mul(v[0], b0), mul(v[1], b1)), mul(v[2], b2));
            let o = add(at, mul(norm(world(ang)), 2. * size));
            let ray = Ray { origin: p3(o), direction: v3(norm(sub(at, o))), t_max: f32::INFINITY };
            let what = || format!("triangle {:?}, normals {:?}, orientation reversed {}, ray {:?} + t {:?}", v, n32, rev, ap(ray.origin), a3(ray.direction));
            let hit = match flat.intersect(&ray) { Some(h) => h, None => { cx.fail(format!("{}: no hit at {:?}", what(), at)); return; } };
            cx.evals(1);
            cx.nontrivials(1);
            // the barycentric position where the rounded ray meets the plane
            let (o, dir) = (ap(ray.origin), a3(ray.direction));
            let t = dot(g, sub(v[0], o)) / dot(g, dir);
            let p = sub(add(o, mul(dir, t)), v[0]);
            let dd = cross(e1, e2);
            let (c1, c2) = (dot(cross(p, e2), dd) / dot(dd, dd), dot(cross(e1, p), dd) / dot(dd, dd));
            let err = 1.5e-6 * (1. + far) / thin.min(1.) / dot(g, norm(dir)).abs();
            let (u, w) = (c1 + c2, c2);
            if !((hit.uv.x as f64 - u).abs() <= err && (hit.uv.y as f64 - w).abs() <= err) { cx.fail(format!("{}: the surface coordinates are {:?}, those interpolated {:?}", what(), hit.uv, [u, w])); return; }
            let (du, dv) = (a3(hit.dpdu), a3(hit.dpdv));
            let (eu, ev) = (sub(v[1], v[0]), sub(v[2], v[1]));
            match n32 {
                None => {
                    let tol = 2e-6 * size * (1. + far);
                    if !close(du, eu, tol) || !close(dv, ev, tol) { cx.fail(format!("{}: the tangents are {:?} and {:?}, the derivatives {:?} and {:?}", what(), du, dv, eu, ev)); return; }
                }
                Some(n) => {
                    let n = n.map(an);
                    let sn = add(add(mul(n[0], 1. - c1 - c2), mul(n[1], c1)), mul(n[2], c2));
                    let sn = mul(norm(sn), if rev { -1. } else { 1. });
                    if !close(an(hit.sn), sn, 1e-5 + 4. * err) { cx.fail(format!("{}: the shading normal is {:?}, the interpolated one {:?}", what(), hit.sn, sn)); return; }
                    let pr = sub(norm(eu), mul(sn, dot(norm(eu), sn)));
                    if len(pr) > 0.05 {
                        let tol = (2e-5 + 8. * err) / len(pr);
                        let (pr, du, dv) = (norm(pr), norm(du), norm(dv));
                        if !close(du, pr, tol) { cx.fail(format!("{}: the first tangent lies along {:?}, the derivative with the part along the shading normal taken away along {:?}", what(), du, pr)); return; }
                        if !(dot(dv, sn).abs() <= tol && dot(dv, du).abs() <= tol) { cx.fail(format!("{}: the second tangent {:?} is not at right angles to the first {:?} and the shading normal {:?}", what(), dv, du, sn)); return; }
                    }
                }
            }
            if !axis(&hit, &what, cx) { return; }
            let st = [u * 7. + 0.3f32 as f64, w * 5. + -0.2f32 as f64];
            if !cell(&hit, &st, &[err * 7. + 1e-5, err * 5. + 1e-5], &what, cx) { return; }
            let hit = match solid.intersect(&ray) { Some(h) => h, None => { cx.fail(format!("{}: no hit", what())); return; } };
            let st: Vec<f64> = (0..3).map(|a| (p[a] + v[0][a]) * k3 as f64).collect();
            if !cell(&hit, &st, &[err * 12. + 1e-5; 3], &what, cx) { return; }
        } }
        cx.sample(|| format!("triangle {:?}, normals {:?}, reversed {}", v, n32, rev));
    });
    c.finish();
}
