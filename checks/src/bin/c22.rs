//! C22: direct lighting, averaged over all random choices, equals the light that arrives.
use checks::paths::mean;
use checks::scatter::Mat;
use checks::*;
use mc::num::*;
use mc::{Check, Cx, Digits, Level};
use pt::api::*;
use pt::film::Film;
use pt::integrator::Integrator;
use pt::ray::Ray;
use pt::reflection::{BSDF, SPECULAR};
use pt::scene::Scene;
use pt::shape::Shape;
use std::sync::Arc;

type P = [f64; 3];
fn mad(o: P, d: P, t: f64) -> P { add(o, mul(d, t)) }

#[derive(Clone, Copy, Debug, PartialEq)]
enum Block { Tri([P; 3]), Ball(P, f64) }
impl Block {
    fn between(&self, a: P, b: P) -> bool {
        let d = sub(b, a);
        match self {
            Block::Tri(v) => {
                let n = cross(sub(v[1], v[0]), sub(v[2], v[0]));
                let den = dot(n, d);
                if den.abs() < 1e-12 { return false; }
                let t = dot(n, sub(v[0], a)) / den;
                let p = mad(a, d, t);
                t > 0. && t < 1. && (0..3).all(|k| dot(cross(sub(v[(k + 1) % 3], v[k]), sub(p, v[k])), n) > 0.)
            }
            Block::Ball(c, r) => {
                let l = sub(a, *c);
                let (qa, qb, qc) = (dot(d, d), dot(d, l), dot(l, l) - r * r);
                let disc = qb * qb - qa * qc;
                if disc <= 0. { return false; }
                let s = disc.sqrt();
                [(-qb - s) / qa, (-qb + s) / qa].iter().any(|t| *t > 0. && *t < 1.)
            }
        }
    }
}

#[derive(Clone, Copy, Debug)]
enum Lamp { Area([P; 3]), Distant(P) }

#[derive(Clone, Copy, Debug)]
enum Floor { Flat, Flipped, Ball, Tilted }
/// The shading normal of the tilted floor.
const TILT: P = [0.36, -0.48, 0.8];

impl Floor {
    fn shape(&self, m: Arc<dyn Material>) -> Box<dyn Shape> {
        let v = [[-30., -20., 0.], [30., -20., 0.], [0., 40., 0.]];
        match self {
            Floor::Flat => Box::new(Triangle::new(v.map(p3), None, false, m)),
            Floor::Flipped => Box::new(Triangle::new([v[1], v[0], v[2]].map(p3), None, false, m)),
            Floor::Ball => Box::new(Sphere::new(p3([0., 0., -2.]), 2., m)),
            Floor::Tilted => Box::new(Triangle::new(v.map(p3), Some([n3(TILT); 3]), false, m)),
        }
    }
    fn add(&self, b: &mut Builder, m: Arc<dyn Material>) {
        let v = [[-30., -20., 0.], [30., -20., 0.], [0., 40., 0.]];
        match self {
            Floor::Flat => b.add_shape(Triangle::new(v.map(p3), None, false, m)),
            Floor::Flipped => b.add_shape(Triangle::new([v[1], v[0], v[2]].map(p3), None, false, m)),
            Floor::Ball => b.add_shape(Sphere::new(p3([0., 0., -2.]), 2., m)),
            Floor::Tilted => b.add_shape(Triangle::new(v.map(p3), Some([n3(TILT); 3]), false, m)),
        }
    }
}

struct Setup { floor: Floor, mat: Mat, wo: P, lamps: Vec<Lamp>, blocks: Vec<Block> }

impl Setup {
    fn ray(&self) -> Ray { let d = norm(self.wo); Ray { origin: p3(mul(d, 0.1)), direction: v3(mul(d, -1.)), t_max: f32::INFINITY } }
    fn scene(&self, l: &[P]) -> Scene<KdTree> {
        let mut b = Builder::new();
        self.floor.add(&mut b, self.mat.make());
        for x in &self.blocks { match x {
            Block::Tri(v) => b.add_shape(Triangle::new(v.map(p3), None, false, Arc::new(NoMaterial))),
            Block::Ball(c, r) => b.add_shape(Sphere::new(p3(*c), *r as f32, Arc::new(NoMaterial))),
        } }
        for (x, l) in self.lamps.iter().zip(l) {
            let l = Spectrum::new(l[0] as f32, l[1] as f32, l[2] as f32);
            match x {
                Lamp::Area(v) => b.add_area_light(AreaLight::new(l, Triangle::new(v.map(p3), None, false, Arc::new(NoMaterial)))),
                Lamp::Distant(w) => b.add_light(DistantLight::new(l, v3(*w))),
            }
        }
        b.construct(|s| KdTree::new(s, None))
    }
    /// What each lamp of radiance one adds, without and with blockers; per channel.
    fn exact(&self, q: usize) -> (BSDF, Vec<(P, P)>) {
        let r = self.ray();
        let (mut i, _) = self.floor.shape(self.mat.make()).intersect(&r).expect("the floor is seen");
        i.shape = Some(Arc::from(self.floor.shape(self.mat.make())));
        let b = i.compute_scattering();
        let (p, n, wo) = (ap(i.p), an(i.sn), i.wo);
        // other lamps are blockers, too
        let open = |own: usize, q: P, wi: P| !self.lamps.iter().enumerate().any(|(j, x)| j != own && matches!(x, Lamp::Area(v) if Block::Tri(*v).between(p, q))) && !self.blocks.iter().any(|x| x.between(p, q)) && !matches!(self.floor, Floor::Ball if dot(wi, n) <= 0.);
        let out = self.lamps.iter().enumerate().map(|(own, x)| match x {
            Lamp::Distant(w) => {
                let w = norm(*w);
                let f = asp(b.f(wo, v3(w)));
                let e = f.map(|x| x * dot(w, n).abs());
                (e, if open(own, mad(p, w, 1e3), w) { e } else { [0.; 3] })
            }
            Lamp::Area(v) => {
                let g = cross(sub(v[1], v[0]), sub(v[2], v[0]));
                let area = len(g) / 2.;
                let gn = norm(g);
                let (mut e, mut s) = ([0f64; 3], [0f64; 3]);
                for a in 0..q { for c in 0..q {
                    let (x, y) = (((a as f64 + 0.5) / q as f64).sqrt(), (c as f64 + 0.5) / q as f64);
                    let at = add(add(mul(v[0], 1. - x), mul(v[1], x * (1. - y))), mul(v[2], x * y));
                    let d = sub(at, p);
                    let wi = norm(d);
                    let cl = -dot(wi, gn);
                    if cl <= 0. { continue; }
                    let f = asp(b.f(wo, v3(wi)));
                    let o = open(own, at, wi);
                    for k in 0..3 {
                        let t = f[k] * dot(wi, n).abs() * cl / dot(d, d) * area / (q * q) as f64;
                        e[k] += t;
                        if o { s[k] += t; }
                    }
                } }
                (e, s)
            }
        }).collect();
        (b, out)
    }
}

/// Radiance so that the whole is mid-range: one scale per lamp and channel.
fn compare(s: &Setup, strata: &[u32], side: usize, q: usize, extra: Option<&dyn Fn(&BSDF, &[P]) -> P>, cx: &mut Cx) { compare_at(0.3, s, strata, side, q, extra, cx) }

fn compare_at(target: f64, s: &Setup, strata: &[u32], side: usize, q: usize, extra: Option<&dyn Fn(&BSDF, &[P]) -> P>, cx: &mut Cx) {
    // light that passes through a glass ball does not arrive directly
    if matches!((s.floor, s.mat), (Floor::Ball, Mat::Glass(..))) { return; }
    let (b, e) = s.exact(q);
    // each lamp in all channels, in different proportions
    let nl = s.lamps.len();
    // of very many lights, the last tenth is blue
    let few = nl / 10;
    let share = |k: usize, a: usize| if nl == 1 { 1. } else if nl > 12 { if k < nl - few { [1.2, 0.4, 0.][a] / nl as f64 } else { [0., 0.2, 0.9][a] / few as f64 } } else { [[0.6, 0.2, 0.4], [0.3, 0.5, 0.], [0.1, 0.3, 0.6]][k % 3][a] };
    let lum: Vec<P> = (0..nl).map(|k| [0, 1, 2].map(|a| {
        let x = if e[k].1[a] > 0.15 * e[k].0[a] { e[k].1[a] } else { e[k].0[a] };
        ((target * share(k, a) / x.max(if extra.is_some() { 0.6 } else if nl > 12 { 1e-5 } else { 1e-3 })) as f32) as f64
    })).collect();
    let mut want = [0f64; 3];
    for k in 0..nl { for a in 0..3 { want[a] += lum[k][a] * e[k].1[a]; } }
    let x = extra.map_or([0.; 3], |f| f(&b, &lum));
    let want = add(want, x);
    let what = || format!("{:?} floor of {:?} seen along {:?}, lights {:?} of radiance {:?}, blockers {:?}", s.floor, s.mat, s.wo, s.lamps, lum, s.blocks);
    match mean(s.scene(&lum), &s.ray(), strata, side) {
        Err(m) => cx.fail(format!("{}: {}", what(), m)),
        Ok((got, _)) => {
            cx.evals((side * side) as u64 * strata.iter().product::<u32>() as u64);
            let dark = want == [0.; 3];
            cx.nontrivials(!dark as u64);
            let soft = if s.blocks.is_empty() { 0. } else { 0.004 };
            let ok = (0..3).all(|a| if want[a] == 0. { got[a] == 0. } else { (got[a] - want[a]).abs() <= 0.02 * want[a] + 0.004f64.min(0.4 * target) + soft });
            if !ok { cx.fail(format!("{}: the mean over all samples is {:?}, the light that arrives gives {:?}", what(), got, want)); return; }
            cx.sample(|| format!("{}: {:?}, expected {:?}", what(), got, want));
        }
    }
}

fn main() {
    let mut c = Check::new("C22", Level::Exploration);
    c.assume("the value of a material for a pair of directions is taken from the code (checked by C19-C21)");
    let g = c.pick(8u32, 9);
    let side = c.pick(4usize, 8);
    let q = c.pick(160usize, 400);
    let up = |c: P, s: f64| [mad(c, [-1., -1., 0.], s), mad(c, [-0.5, 1.2, 0.3], s), mad(c, [1.1, -0.2, 0.1], s)];
    // facing down onto the origin (winding chosen below)
    let turn = |v: [P; 3], toward: bool| { let n = cross(sub(v[1], v[0]), sub(v[2], v[0])); let m = mul(add(add(v[0], v[1]), v[2]), 1. / 3.); if (dot(n, m) < 0.) == toward { v } else { [v[0], v[2], v[1]] } };
    let mats = [Mat::Matte([0.9, 0.5, 0.2]), Mat::Plastic(0.4, 0.5, 0.4), Mat::Metal(0.9, [0.2, 0.92, 1.1], [3.9, 2.45, 2.14], 0.35, 0.35), Mat::Metal(0.9, [0.2, 0.92, 1.1], [3.9, 2.45, 2.14], 0.3, 0.6), Mat::Glass(1., 1., 1.5, 0.4, 0.4), Mat::Matte([0.; 3])];
    let wos: Vec<P> = c.pick(vec![[0.3, -0.2, 1.], [-0.9, 0.5, 0.6]], vec![[0., 0., 1.], [0.3, -0.2, 1.], [-0.9, 0.5, 0.6], [0.2, 1., 0.35]]);
    let places: Vec<(P, f64)> = vec![([0., 0., 2.], 1.), ([0.8, -0.6, 1.], 0.4), ([-1.5, 0.5, 0.5], 0.7), ([0.5, 0.3, 6.], 3.), ([0.2, 0.1, 0.4], 0.3), ([1.5, 0.2, 0.1], 0.8), ([0.5, 1., -1.5], 1.), ([0., 0., 0.5], 8.), ([-0.6, 0.7, 1.5], 0.004)];
    let floors = [Floor::Flat, Floor::Flipped, Floor::Ball, Floor::Tilted];
    let one = [1, g, g, g, g, 1, 1];

    c.family("one area light", "a flat floor (either winding, or with a tilted shading normal) or ball of 6 materials (one black) seen from several directions and lit by a triangle at 9 places (above, near, far, through the horizon, below, spanning the whole view, tiny) facing it or away: all answers of the random choices, on a complete grid of g x g light points, g x g scattering directions (g = 8, thorough 9) and 16 (64) shifts, against the integral over the light; non-trivial: points that are lit", (mats.len() * wos.len() * places.len() * 2 * 4) as u64, |i, cx| {
        let mut d = Digits(i);
        let (m, wo, (at, s), toward, floor) = (*d.of(&mats), *d.of(&wos), *d.of(&places), d.take(2) == 0, *d.of(&floors));
        compare(&Setup { floor, mat: m, wo, lamps: vec![Lamp::Area(turn(up(at, s), toward))], blocks: vec![] }, &one, side, q, None, cx);
    });

    let blocks = [
        vec![Block::Tri([[-0.2, -3., 1.], [3., 1., 1.], [-0.1, 2., 1.1]])],
        vec![Block::Ball([0.2, 0.1, 0.8], 0.25)],
        vec![Block::Tri([[-9., -9., 0.9], [9., -9., 0.9], [0., 12., 0.9]])],
        vec![Block::Ball([-0.6, 0., 1.2], 0.3), Block::Tri([[0.1, 0., 0.7], [0.6, 0., 0.7], [0.2, 0.5, 0.8]])],
        vec![Block::Ball([0.4, 0.2, 3.5], 0.5)],
    ];
    let lamps = [Lamp::Area(turn(up([0., 0., 2.], 1.), true)), Lamp::Area(turn(up([0.5, -0.4, 1.6], 0.7), true)), Lamp::Distant([0.3, 0.2, 1.]), Lamp::Distant([-0.8, 0.1, 0.4])];
    // the view passes under the blockers
    let low: Vec<P> = vec![[1.2, -0.9, 0.3], [-0.5, -1.6, 0.35]];
    c.family("shadows", "the same floors and materials with one of 2 area and 2 distant lights and 5 sets of blockers (none in the view): partly, fully or not shadowed; non-trivial: points that are lit", (mats.len() * low.len() * lamps.len() * blocks.len() * 2) as u64, |i, cx| {
        let mut d = Digits(i);
        let (m, wo, l, bl, floor) = (*d.of(&mats), *d.of(&low), *d.of(&lamps), d.of(&blocks).clone(), *d.of(&[Floor::Flat, Floor::Ball]));
        compare(&Setup { floor, mat: m, wo, lamps: vec![l], blocks: bl }, &one, side, q, None, cx);
    });

    // distant lights at every height, also below
    let dist: Vec<P> = vec![[0., 0., 1.], [0.5, 0.5, 0.7], [-1., 0.2, 0.15], [0.3, -0.9, -0.5], [0., 0., -1.], [3., 4., 12.]];
    c.family("distant light", "floors and materials lit by a distant light from 6 directions (also from below, and given by a vector that is not of unit length); non-trivial: points that are lit", (mats.len() * wos.len() * dist.len() * 4) as u64, |i, cx| {
        let mut d = Digits(i);
        let (m, wo, w, floor) = (*d.of(&mats), *d.of(&wos), *d.of(&dist), *d.of(&floors));
        compare(&Setup { floor, mat: m, wo, lamps: vec![Lamp::Distant(w)], blocks: vec![] }, &one, side, 1, None, cx);
    });

    // lobes and lights of nearly the same small extent, in the mirror direction
    let narrow: Vec<(f32, f32)> = c.pick(vec![(0.02, 0.02), (0.05, 0.05), (0.03, 0.08), (0.005, 0.005)], vec![(0.005, 0.005), (0.004, 0.01), (0.02, 0.02), (0.05, 0.05), (0.03, 0.08), (0.1, 0.02)]);
    let sizes: &[f64] = &[0.006, 0.02, 0.05, 0.1, 0.25, 0.6, 0., -1., -2.];
    c.family("narrow lobes", "metal, plastic and glass of roughness 0.005 to 0.08, lit by triangles of 6 sizes (0.006 to 0.6) at distance 2 around the mirror direction, or by a distant light in it or one or two hundredths beside it, floor flat or with a tilted shading normal; non-trivial: points that are lit", (narrow.len() * 3 * wos.len() * sizes.len() * 2) as u64, |i, cx| {
        let mut d = Digits(i);
        let ((u, v), kind, wo, s, floor) = (*d.of(&narrow), d.take(3), *d.of(&wos), *d.of(sizes), *d.of(&[Floor::Flat, Floor::Tilted]));
        let m = match kind { 0 => Mat::Metal(0.9, [0.2, 0.92, 1.1], [3.9, 2.45, 2.14], u, v), 1 => Mat::Plastic(0.3, 0.6, u), _ => Mat::Glass(1., 1., 1.5, u, v) };
        let n = match floor { Floor::Tilted => TILT, _ => [0., 0., 1.] };
        let w = norm(wo);
        let mirror = sub(mul(n, 2. * dot(w, n)), w);
        if mirror[2] < 0.1 { return; }
        // upright against the mirror direction
        let a = norm(cross(mirror, [0.3, 0.9, 0.1]));
        let b = cross(mirror, a);
        let at = mul(mirror, 2.);
        let tri = [mad(mad(at, a, -s), b, -0.7 * s), mad(mad(at, a, s), b, -0.5 * s), mad(at, b, s)];
        let lamp = if s <= 0. { Lamp::Distant(mad(mirror, a, -0.01 * s)) } else { Lamp::Area(turn(tri, true)) };
        compare(&Setup { floor, mat: m, wo, lamps: vec![lamp], blocks: vec![] }, &one, side, q, None, cx);
    });

    // a light so near and wide that a point of it is seldom the one that a direction meets
    let near: &[f64] = &[0.12, 0.3];
    let fine = c.pick(1000, 2000);
    c.family("near wide light", "floors and materials under a triangle 16 wide at height 0.12 or 0.3; non-trivial: points that are lit", (mats.len() * wos.len() * near.len() * 4) as u64, |i, cx| {
        let mut d = Digits(i);
        let (m, wo, h, floor) = (*d.of(&mats), *d.of(&wos), *d.of(near), *d.of(&floors));
        // seen from behind the shading normal, directions are not sampled, and points of the light alone are too few
        if matches!(floor, Floor::Tilted) && dot(TILT, wo) <= 0. { return; }
        let tri = [[-9., -7., h], [-2., 11., h], [8., -1., h]];
        compare(&Setup { floor, mat: m, wo, lamps: vec![Lamp::Area(turn(tri, true))], blocks: vec![] }, &one, side, fine, None, cx);
    });

    // light so dim that it makes only a few steps of the image's scale
    let dim = [Lamp::Area(turn(up([0., 0., 0.5], 8.), true)), Lamp::Area(turn(up([0., 0., 0.3], 0.5), true)), Lamp::Distant([0.1, 0.1, 1.])];
    let dark = [0.0009, 0.0006, 0.0003];
    c.family("dim light", "white and glossy floors that reflect 0.0003 to 0.0009 of an area light or a distant light (one to three steps of the written scale); non-trivial: points that are lit", (2 * dim.len() * dark.len() * wos.len()) as u64, |i, cx| {
        let mut d = Digits(i);
        let (m, l, t, wo) = ([Mat::Matte([1.; 3]), Mat::Metal(0.9, [0.2, 0.92, 1.1], [3.9, 2.45, 2.14], 0.35, 0.35)][d.take(2)], *d.of(&dim), *d.of(&dark), *d.of(&wos));
        compare_at(t, &Setup { floor: Floor::Flat, mat: m, wo, lamps: vec![l], blocks: vec![] }, &one, side, q, None, cx);
    });

    // surfaces so dark that only strong light shows them
    let black = [Mat::Matte([9e-4, 6e-4, 3e-4]), Mat::Matte([2e-5, 0., 1e-5]), Mat::Metal(5e-4, [0.2, 0.92, 1.1], [3.9, 2.45, 2.14], 0.35, 0.35), Mat::Plastic(3e-4, 2e-4, 0.3), Mat::Glass(4e-4, 0., 1.5, 0.3, 0.3)];
    c.family("dark floors", "floors that reflect less than a thousandth under lights so strong that they look grey, area lights and a distant one; non-trivial: points that are lit", (black.len() * dim.len() * wos.len() * 2) as u64, |i, cx| {
        let mut d = Digits(i);
        let (m, l, wo, floor) = (*d.of(&black), *d.of(&dim), *d.of(&wos), *d.of(&[Floor::Flat, Floor::Ball]));
        compare(&Setup { floor, mat: m, wo, lamps: vec![l], blocks: vec![] }, &one, side, q, None, cx);
    });

    // several lights
    let many: Vec<Vec<Lamp>> = {
        let a = Lamp::Area(turn(up([0., 0., 2.], 0.8), true));
        let b = Lamp::Area(turn(up([1.6, -0.6, 1.2], 0.4), true));
        let off = Lamp::Area(turn(up([-1.2, 0.8, 1.], 0.4), false));
        let x = Lamp::Distant([0.3, 0.2, 1.]);
        // one in front of the other
        let near = Lamp::Area(turn(up([0.1, -0.1, 1.2], 0.35), true));
        let far = Lamp::Area(turn(up([0.2, 0.2, 4.], 2.), true));
        let y = Lamp::Distant([-0.8, 0.9, 0.5]);
        let upright = |c: P, s: f64| { let u = norm(cross(c, [0., 0., 1.])); Lamp::Area(turn([mad(mad(c, u, -s), [0., 0., 1.], -0.4 * s), mad(mad(c, u, s), [0., 0., 1.], -0.3 * s), mad(c, [0., 0., 1.], s)], true)) };
        // in the mirror direction of the first view, one half in front of the other
        let (m1, m2) = (upright([-0.8, 0.6, 0.3], 0.3), upright([-1.7, 1.4, 0.7], 1.));
        vec![vec![m1, m2], vec![a, b], vec![a, x], vec![x, y], vec![a, b, x], vec![x, y, b], vec![off, a], vec![a, b, off, x, y], vec![a, near], vec![near, a], vec![x, near, far], vec![a, b, off, x, y, m1, m2], vec![x, y, b, a, Lamp::Distant([0.1, 0.7, 0.4]), Lamp::Distant([-0.6, -0.7, 0.9]), m2, Lamp::Distant([0.9, 0.1, 0.5]), off]]
    };
    let g2 = c.pick(6u32, 8);
    c.family("several lights", "floors and materials under 13 sets of two to nine area and distant lights, one of them facing away, some in front of others, each in its own colours, without or with blockers; non-trivial: points that are lit", (mats.len() * low.len() * many.len() * 3 * 2) as u64, |i, cx| {
        let mut d = Digits(i);
        let (m, wo, l, bl, floor) = (*d.of(&mats), *d.of(&low), d.of(&many).clone(), d.take(3), *d.of(&[Floor::Flat, Floor::Ball]));
        let bl = if bl == 0 { vec![] } else { blocks[bl - 1].clone() };
        let n = l.len() as u32;
        // a few more choices of the light than lights, evenly
        compare(&Setup { floor, mat: m, wo, lamps: l, blocks: bl }, &[n, g2, g2, g2, g2, 1, 1], side, q, None, cx);
    });

    // more lights than a small number counts
    let crowd: &[usize] = c.pick(&[20, 300], &[13, 20, 40, 70, 150, 260, 300, 600]);
    c.family("very many lights", "floors and materials under 20 or 300 (thorough: 13 to 600) distant lights in different directions, every third an area light, the last tenth of a colour of their own; non-trivial: points that are lit", (mats.len() * wos.len() * crowd.len()) as u64, |i, cx| {
        let mut d = Digits(i);
        let (m, wo, n) = (*d.of(&mats), *d.of(&wos), *d.of(crowd));
        let l = (0..n).map(|k| {
            let (z, t) = (0.3 + 0.65 * ((k * 7) % n) as f64 / n as f64, k as f64 * 2.4);
            let r = (1. - z * z).sqrt();
            let w = [r * t.cos(), r * t.sin(), z];
            if k % 3 == 1 { Lamp::Area(turn(up(mul(w, 30. + (k % 17) as f64), 0.6), true)) } else { Lamp::Distant(w) }
        }).collect();
        compare(&Setup { floor: Floor::Flat, mat: m, wo, lamps: l, blocks: vec![] }, &[n as u32, 2, 2, 2, 2, 1, 1], 1, 4, None, cx);
    });

    // specular receivers: what they mirror counts once
    let spec = [Mat::Mirror([0.9, 0.5, 0.2]), Mat::Metal(0.9, [0.2, 0.92, 1.1], [3.9, 2.45, 2.14], 0., 0.), Mat::Plastic(0.5, 0.4, 0.), Mat::Glass(1., 1., 1.5, 0., 0.), Mat::Glass(0.5, 0., 1.5, 0., 0.)];
    c.family("specular floor", "mirror, smooth metal, glass and plastic floors under an area light that lies in the mirror direction or does not, facing the floor or away, or under a distant light: the mirrored light once, the diffuse part as before; non-trivial: points that are lit", (spec.len() * wos.len() * 3 * 2 * 2) as u64, |i, cx| {
        let mut d = Digits(i);
        let (m, wo, at, toward, floor) = (*d.of(&spec), *d.of(&wos), d.take(3), d.take(2) == 0, *d.of(&[Floor::Flat, Floor::Flipped]));
        let w = norm(wo);
        let mirror = [-w[0], -w[1], w[2]];
        let lamp = match at { 0 => Lamp::Area(turn(up(mul(mirror, 2.), 1.), toward)), 1 => Lamp::Area(turn(up(add(mul(mirror, 2.), [3., 0., 1.]), 0.5), toward)), _ => Lamp::Distant(mirror) };
        let s = Setup { floor, mat: m, wo, lamps: vec![lamp], blocks: vec![] };
        let extra = |b: &BSDF, l: &[P]| -> P {
            let mut out = [0.; 3];
            if at != 0 || !toward { return out; }
            for k in 0..64 {
                let (wi, f, pdf, flag) = b.sample_f(v3(w), Point2f::new((k as f32 + 0.5) / 64., 0.5));
                if flag & SPECULAR == 0 || pdf == 0. || wi.z < 0. { continue; }
                for a in 0..3 { out[a] += asp(f)[a] * wi.z.abs() as f64 / pdf as f64 / 64. * l[0][a]; }
            }
            out
        };
        compare(&s, &[1, 6, 6, 6, 6, 4, 2], side, q, Some(&extra), cx);
    });
    // points and directions that few samples meet, but some do: the light's corners and edges
    let edge = [0f32, 0.00000012, 0.25, 0.5, 0.99999994];
    let far: Vec<(P, f64)> = places.iter().cloned().chain([([1.5, 1.2, 0.000001], 0.5), ([40., 9., 3.], 2.), ([0.1, -0.2, 1.], 0.0001)]).collect();
    c.family("corners of lights", "luminous floors (flat or with a tilted shading normal) of 6 materials seen from several directions, under a triangle at 12 places: every light point of a 5 x 5 grid that includes the corners and edges, with every of 25 scattering directions and either light chosen; no sample may be lost or less than what the floor emits; non-trivial: pixels of other values", (mats.len() * wos.len() * far.len() * 2 * 2) as u64, |i, cx| {
        let mut d = Digits(i);
        let (m, wo, (at, s), toward, floor) = (*d.of(&mats), *d.of(&wos), *d.of(&far), d.take(2) == 0, *d.of(&[Floor::Flat, Floor::Tilted]));
        let v = [[-30., -20., 0.], [30., -20., 0.], [0., 40., 0.]];
        let lv = turn(up(at, s), toward);
        let mut b = Builder::new();
        let ns = match floor { Floor::Tilted => Some([n3(TILT); 3]), _ => None };
        b.add_area_light(AreaLight::new(Spectrum::from(0.05), Triangle::new(v.map(p3), ns, false, m.make())));
        b.add_area_light(AreaLight::new(Spectrum::from(0.2), Triangle::new(lv.map(p3), None, false, Arc::new(NoMaterial))));
        let scene = b.construct(|s| KdTree::new(s, None));
        let ray = Setup { floor, mat: m, wo, lamps: vec![], blocks: vec![] }.ray();
        let n = edge.len();
        let e = edge;
        // one sample per pixel: x holds the light point, y the direction and the light
        let sm = FnSampler::new(1, move |p, _, call| {
            let (x, y) = (p.x as usize, p.y as usize);
            match call { 2 => if y / (n * n) == 0 { 0.25 } else { 0.75 }, 3 => e[x % n], 4 => e[x / n], 5 => e[y % n], 6 => e[y / n % n], _ => 0.5 }
        });
        let film = Film::new(Point2u::new((n * n) as u32, (2 * n * n) as u32), box_filter(0.5));
        let what = || format!("luminous {:?} floor of {:?} seen along {:?}, light {:?}", floor, m, wo, lv);
        match image_of(move || Integrator::new(scene, sm, FixedCamera(ray), film).render(1)) {
            Err(e) => cx.fail(format!("{}: {}", what(), e)),
            Ok(img) => {
                cx.evals(img.px.len() as u64);
                cx.nontrivials(img.px.iter().filter(|p| p[0] as i64 != img.px[0][0] as i64).count() as u64);
                for (k, p) in img.px.iter().enumerate() { if (0..3).any(|a| linear(p[a] as f64) < 0.045) {
                    let (x, y) = (k % (n * n), k / (n * n));
                    cx.fail(format!("{}: with the {} light chosen, at {:?}, and scattering sample {:?} the floor, which emits 0.05 by itself, has the value {:?}", what(), if y / (n * n) == 0 { "first" } else { "second" }, (edge[x % n], edge[x / n]), (edge[y % n], edge[y / n % n]), p));
                    return;
                } }
                cx.sample(|| format!("{}: {:?}", what(), img.px[0]));
            }
        }
    });
    c.finish();
}
