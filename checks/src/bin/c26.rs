//! C26: checkerboards tile the whole plane and space.
use mc::{Check, Digits, Level};
use pt::interaction::Interaction;
use pt::texture::*;
use pt::transform::Transform;
use pt::vector::{Point2f, Point3f};
use pt::spectrum::Spectrum;

struct Raw2(Point2f);
impl TextureMapping2D for Raw2 {
    fn map(&self, _: &Interaction) -> Point2f { self.0 }
}
struct Raw3(Point3f);
impl TextureMapping3D for Raw3 {
    fn map(&self, _: &Interaction) -> Point3f { self.0 }
}

fn coords(n: i64) -> Vec<f32> {
    let mut v = Vec::new();
    for k in -n..=n {
        let k = k as f32;
        v.extend([k, k.next_down(), k.next_up(), k + 0.25, k + 0.5]);
    }
    v.push(-0.0);
    for e in [20, 22, 23, 24, 25, 31, 32, 40, 61] {
        let p = (1u64 << e) as f32;
        for x in [p, p + 1., p - 1., p.next_up(), p.next_down()] {
            v.extend([x, -x]);
        }
    }
    for x in [f32::MIN_POSITIVE, 1e-40, 1e-45] {
        v.extend([x, -x]);
    }
    v.sort_by(|a, b| a.total_cmp(b));
    v.dedup_by(|a, b| a.to_bits() == b.to_bits());
    v
}

/// The parity of the cell, by exact integer arithmetic.
fn even(xs: &[f64]) -> bool {
    xs.iter().map(|x| x.floor() as i128).sum::<i128>().rem_euclid(2) == 0
}

fn main() {
    let mut c = Check::new("C26", Level::Exploration);
    c.assume("texture coordinates of magnitude below 2^62");
    let v2 = coords(c.pick(40, 200));
    let n = v2.len() as u64;
    c.family("2d raw coordinates", "every pair from a lattice with cell borders, their float neighbours, negatives, denormals and huge values; non-trivial: at least one coordinate negative or a border", n * n, |i, cx| {
        let mut d = Digits(i);
        let (x, y) = (*d.of(&v2), *d.of(&v2));
        if x < 0. || y < 0. || x.fract() == 0. || y.fract() == 0. { cx.nontrivial(); }
        let t = CheckerboardTexture::new(Raw2(Point2f::new(x, y)), 3.0f32, 7.0);
        let got = t.evaluate(&Interaction::default());
        let want = if even(&[x as f64, y as f64]) { 3. } else { 7. };
        cx.sample(|| format!("({:e}, {:e}) -> {}", x, y, got));
        cx.check(got == want, || format!("2-D checkerboard at ({:e}, {:e}) is {} instead of {}", x, y, got, want));
    });
    let v3 = coords(c.pick(4, 12));
    let n = v3.len() as u64;
    c.family("3d raw coordinates", "every triple from such a lattice", n * n * n, |i, cx| {
        let mut d = Digits(i);
        let (x, y, z) = (*d.of(&v3), *d.of(&v3), *d.of(&v3));
        if x < 0. || y < 0. || z < 0. { cx.nontrivial(); }
        let t = Checkerboard3DTexture::new(Raw3(Point3f::new(x, y, z)), 3.0f32, 7.0);
        let got = t.evaluate(&Interaction::default());
        let want = if even(&[x as f64, y as f64, z as f64]) { 3. } else { 7. };
        cx.sample(|| format!("({:e}, {:e}, {:e}) -> {}", x, y, z, got));
        cx.check(got == want, || format!("3-D checkerboard at ({:e}, {:e}, {:e}) is {} instead of {}", x, y, z, got, want));
    });
    let us: Vec<f32> = (-24..=24).map(|k| k as f32 / 8.).collect();
    let ss = [-4f32, -1., -0.5, 0., 0.5, 1., 2., 3., 8.];
    let ds = [-2f32, -0.75, 0., 0.5, 3.];
    let total = (us.len() * us.len() * ss.len() * ss.len() * ds.len() * ds.len()) as u64;
    c.family("uv mapping", "every (u, v, su, sv, du, dv) of a dyadic lattice (results exact in f32), value and mapped point; non-trivial: the two axes are configured differently", total, |i, cx| {
        let mut d = Digits(i);
        let (u, v, su, sv, du, dv) = (*d.of(&us), *d.of(&us), *d.of(&ss), *d.of(&ss), *d.of(&ds), *d.of(&ds));
        if su != sv || du != dv { cx.nontrivial(); }
        let it = Interaction { uv: Point2f::new(u, v), p: Point3f::new(9.5, 3.25, 1.5), ..Default::default() };
        let m = UVMapping2D::new(su, sv, du, dv).map(&it);
        let (s, t) = (u as f64 * su as f64 + du as f64, v as f64 * sv as f64 + dv as f64);
        cx.sample(|| format!("uv ({}, {}) scaled ({}, {}) shifted ({}, {}) -> ({}, {})", u, v, su, sv, du, dv, m.x, m.y));
        cx.check(m.x as f64 == s && m.y as f64 == t, || format!("uv ({}, {}) maps to ({}, {}) instead of ({}, {})", u, v, m.x, m.y, s, t));
        let tex = CheckerboardTexture::new(UVMapping2D::new(su, sv, du, dv), Spectrum::new(1., 2., 3.), Spectrum::new(4., 5., 6.));
        let got = tex.evaluate(&it);
        let want = if even(&[s, t]) { 1. } else { 4. };
        cx.check(got.r == want && got.g == want + 1. && got.b == want + 2., || format!("checkerboard with uv mapping at ({}, {}) is {:?}", s, t, got));
    });
    let ps = [-3.75f32, -2.25, -1., -0.25, 0., 0.5, 1., 1.75, 2., 5.25];
    // what each transform does to a point, written independently
    type P = [f64; 3];
    let maps: Vec<(&str, Transform, fn(P) -> P)> = vec![
        ("identity", Transform::scale(1., 1., 1.), |p| p),
        ("translate", Transform::translate(1., -2., 3.5), |p| [p[0] + 1., p[1] - 2., p[2] + 3.5]),
        ("scale", Transform::scale(2., -1., 0.5), |p| [p[0] * 2., -p[1], p[2] * 0.5]),
        ("scale then translate", Transform::translate(0.5, 1., -1.) * Transform::scale(4., 1., 2.), |p| [p[0] * 4. + 0.5, p[1] + 1., p[2] * 2. - 1.]),
        ("translate then scale", Transform::scale(4., 1., 2.) * Transform::translate(0.5, 1., -1.), |p| [(p[0] + 0.5) * 4., p[1] + 1., (p[2] - 1.) * 2.]),
    ];
    let n = (maps.len() * ps.len() * ps.len() * ps.len()) as u64;
    c.family("3d mapping", "every point of a dyadic lattice through every listed transform; non-trivial: the transform is not the identity", n, |i, cx| {
        let mut d = Digits(i);
        let (name, t, f) = d.of(&maps);
        let p = [*d.of(&ps), *d.of(&ps), *d.of(&ps)];
        if *name != "identity" { cx.nontrivial(); }
        let it = Interaction { p: Point3f::new(p[0], p[1], p[2]), uv: Point2f::new(0.3, 0.8), ..Default::default() };
        let want = f([p[0] as f64, p[1] as f64, p[2] as f64]);
        let m = IdentityMapping3D::new(*t).map(&it);
        cx.sample(|| format!("{} maps {:?} to {:?}", name, p, m));
        cx.check([m.x as f64, m.y as f64, m.z as f64] == want, || format!("{} maps {:?} to {:?} instead of {:?}", name, p, m, want));
        let got = Checkerboard3DTexture::new(IdentityMapping3D::new(*t), 3.0f32, 7.0).evaluate(&it);
        let w = if even(&want) { 3. } else { 7. };
        cx.check(got == w, || format!("3-D checkerboard under {} at {:?} is {} instead of {}", name, p, got, w));
    });
    let vals = [0f32, -0., 1., -3.5, f32::INFINITY, 1e-40];
    c.family("constant", "constant textures at every lattice point return their value", (vals.len() * us.len() * us.len()) as u64, |i, cx| {
        let mut d = Digits(i);
        let v = *d.of(&vals);
        let it = Interaction { uv: Point2f::new(*d.of(&us), *d.of(&us)), ..Default::default() };
        cx.nontrivial();
        cx.check(ConstantTexture::new(v).evaluate(&it).to_bits() == v.to_bits(), || format!("constant texture {} changed", v));
        let s = ConstantTexture::new(Spectrum::new(v, 1., 2.)).evaluate(&it);
        cx.check(s.r.to_bits() == v.to_bits() && s.g == 1. && s.b == 2., || format!("constant texture spectrum {} changed", v));
    });
    c.finish();
}
