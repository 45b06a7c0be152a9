//! C29: materials scatter the shares they are configured with.
use checks::scatter::*;
use checks::*;
use mc::num::*;
use mc::{Check, Digits, Level};
use pt::api::*;
use pt::interaction::Interaction;
use pt::reflection::{BSDF, SPECULAR};
use std::f64::consts::{PI, TAU};
use std::sync::Arc;

/// Microfacet area density (Trowbridge and Reitz) and the Smith height-correlated shadowing.
fn ggx(h: V, ax: f64, ay: f64) -> f64 { 1. / (PI * ax * ay * ((h[0] / ax).powi(2) + (h[1] / ay).powi(2) + h[2] * h[2]).powi(2)) }
fn lambda(w: V, ax: f64, ay: f64) -> f64 { ((1. + ((ax * w[0]).powi(2) + (ay * w[1]).powi(2)) / (w[2] * w[2])).sqrt() - 1.) / 2. }
fn smith(o: V, i: V, ax: f64, ay: f64) -> f64 { 1. / (1. + lambda(o, ax, ay) + lambda(i, ax, ay)) }

/// The Fresnel share within the rounding of the cosine (next to the critical angle it changes fast).
fn share(c: f64, e: f64, amp: f64) -> (f64, f64) {
    let d = 6e-7 * (1. + amp);
    let v = [c - d, c, c + d].map(|x| fresnel(if x * c > 0. { x } else { c }, e));
    (v.iter().cloned().fold(9., f64::min), v.iter().cloned().fold(0., f64::max))
}

/// The value of a material for a pair of local directions, as a range, and its relative sensitivity.
fn value(m: &Mat, o: V, i: V) -> ([(f64, f64); 3], f64) {
    let same = o[2] * i[2] > 0.;
    let none = ([(0., 0.); 3], 0.);
    let lobe = |ax: f64, ay: f64| {
        let h = add(o, i);
        let l = len(h);
        let h = mul(h, 1. / l);
        (dot(h, i) * o[2].signum(), ggx(h, ax, ay) * smith(o, i, ax, ay) / (4. * (o[2] * i[2]).abs()), 1. / l)
    };
    let both = |v: [f64; 3]| v.map(|x| (x, x));
    let sens = |ax: f64, ay: f64, amp: f64| 1e-4 + 1.2e-6 / ax.min(ay).powi(2) * (1. + amp) + 4e-7 * amp / ax.min(ay);
    match *m {
        Mat::Matte(k) => if same { (both(k.map(|x| (x as f64).max(0.) / PI)), 1e-5) } else { none },
        Mat::Mirror(_) => none,
        Mat::Metal(r, e, k, u, v) if u > 0. && v > 0. => if !same { none } else {
            let (u, v) = (u as f64, v as f64);
            let (c, x, a) = lobe(u, v);
            (both([0, 1, 2].map(|k2| (r as f64).max(0.) * fresnel_metal(c, e[k2] as f64, k[k2] as f64) * x)), sens(u, v, a))
        },
        Mat::Plastic(d, s, r) => if !same { none } else {
            let d = (d as f64).max(0.) / PI;
            if r == 0. { return (both([d; 3]), 1e-5); }
            let r = r as f64;
            let (c, x, a) = lobe(r, r);
            // the share of a boundary of index 1.5, from outside or from inside
            let (f, g) = (share(c, 1.5, a), share(-c, 1.5, a));
            let s = (s as f64).max(0.) * x;
            ([(d + s * f.0.min(g.0), d + s * f.1.max(g.1)); 3], sens(r, r, a))
        },
        Mat::Glass(r, t, e, u, v) if u > 0. && v > 0. && e != 1. => {
            let (u, v, e) = (u as f64, v as f64, e as f64);
            if same {
                let (c, x, a) = lobe(u, v);
                let (lo, hi) = share(c, e, a);
                let x = x * (r as f64).max(0.);
                ([(lo * x, hi * x); 3], sens(u, v, a))
            } else {
                let eta = if o[2] > 0. { e } else { 1. / e };
                let h = add(o, mul(i, eta));
                let l = len(h);
                let mut h = mul(h, 1. / l);
                // a facet on edge has no side
                if h[2].abs() < 1e-4 { return (both([0.; 3]), f64::NAN); }
                if h[2] < 0. { h = mul(h, -1.); }
                let (oh, ih) = (dot(o, h), dot(i, h));
                if oh * o[2] <= 0. || ih * i[2] <= 0. { return (both([0.; 3]), if (oh.abs()).min(ih.abs()) < 1e-4 { f64::NAN } else { 0. }); }
                // seen from one side `fresnel` takes the cosine to the normal on the outer side
                let (lo, hi) = share(oh, e, 1. / l);
                let x = (t as f64).max(0.) * ggx(h, u, v) * smith(o, i, u, v) * (oh * ih).abs() / ((oh + eta * ih).powi(2) * (o[2] * i[2]).abs());
                ([((1. - hi) * x, (1. - lo) * x); 3], sens(u, v, 1. / l) + 2e-6 / oh.abs().min(ih.abs()) + 3e-6 / (oh + eta * ih).abs())
            }
        }
        _ => none,
    }
}

fn main() {
    let mut c = Check::new("C29", Level::Exploration);
    let frames = [Frame::plain(), Frame::new([0.3, -0.5, 0.8], 0., 0.7), Frame::new([-1., 0.2, 0.1], 0.35, 2.), Frame::new([0., 0.1, -1.], -0.6, -1.)];
    let rough: Vec<(f32, f32)> = [(0.006, 0.006), (0.03, 0.03), (0.1, 0.1), (0.3, 0.3), (0.6, 0.6), (1., 1.), (0.1, 0.6), (1., 0.2), (0.05, 0.5), (0.5, 0.45), (1.4, 0.8)].to_vec();
    let mut mats = vec![];
    for k in [[0.9f32, 0.5, 0.1], [0., 0.3, 1.], [1.; 3], [-0.5, 0.4, 0.2], [0.; 3], [3., 2., 1.], [1e-4, 2e-4, 0.]] { mats.push(Mat::Matte(k)); }
    for (u, v) in &rough {
        for (r, e, k) in [(1f32, [0.2f32, 0.92, 1.1], [3.9f32, 2.45, 2.14]), (0.4, [1.5, 1.05, 0.2], [0.1, 0.02, 0.3])] { mats.push(Mat::Metal(r, e, k, *u, *v)); }
        for (r, t) in [(1f32, 1f32), (0.3, 0.8), (0.7, 0.), (0., 0.6), (-0.5, 0.5)] { for e in [1.5f32, 1.33, 2.4, 0.7, 1.04, 0.97] { mats.push(Mat::Glass(r, t, e, *u, *v)); } }
        if u == v { for (d, s) in [(0.5f32, 0.5f32), (0., 0.9), (0.7, 0.), (0.3, 0.2), (-0.5, 0.6), (0.6, -0.2)] { mats.push(Mat::Plastic(d, s, *u)); } }
    }
    for (d, s) in [(0.5f32, 0.5f32), (0., 0.9), (0.7, 0.)] { mats.push(Mat::Plastic(d, s, 0.)); }
    let zs: &[f64] = c.pick(&[1., 0.999, 0.97, 0.9, 0.8, 0.65, 0.5, 0.35, 0.2, 0.1, 0.05, 0.02, 4e-3], &[1., 0.9999, 0.999, 0.99, 0.97, 0.95, 0.9, 0.8, 0.72, 0.65, 0.5, 0.42, 0.35, 0.2, 0.1, 0.05, 0.02, 0.01, 4e-3, 2e-3]);
    let nphi = c.pick(16usize, 32);
    let mut dirs: Vec<V> = vec![];
    for (k, z) in zs.iter().enumerate() { for s in [1., -1.] { for p in 0..if *z == 1. { 1 } else { nphi } { dirs.push(polar(z * s, (p as f64 + 0.15 * k as f64) * TAU / nphi as f64)); } } }
    c.family("values", "matte, rough metal, rough glass (6 indices, also close to 1, 5 shares), plastic with 11 roughnesses (equal and unequal), also with negative, zero and large shares, in 4 frames (two with a tilted shading normal): all pairs of a direction lattice over both hemispheres against the Lambert and Torrance-Sparrow formulas with Trowbridge-Reitz facets, Smith shadowing and Fresnel shares in double precision; non-trivial: positive values", (mats.len() * frames.len() * dirs.len()) as u64, |i, cx| {
        let mut d = Digits(i);
        let (m, f, lo) = (*d.of(&mats), *d.of(&frames), *d.of(&dirs));
        let b = f.bsdf(&m);
        let wo = v3(f.world(lo));
        // a direction in a turned frame is only known up to rounding
        let turned = f.sn != [0., 0., 1.];
        if turned && lo[2].abs() < 0.02 { return; }
        for li in &dirs {
            if turned && li[2].abs() < 0.02 { continue; }
            // mirror images fall on the axis of a lobe; others beside it
            for li in [*li, [-lo[0] * 0.999, -lo[1] * 0.999, li[2].signum() * (1. - 0.998001 * (1. - lo[2] * lo[2])).max(0.).sqrt()]] {
                let wi = v3(f.world(li));
                let (o, p) = (f.local(a3(wo)), f.local(a3(wi)));
                let (gs, ls) = (dot(a3(wo), f.gn) * dot(a3(wi), f.gn), o[2] * p[2]);
                if gs * ls <= 0. || gs.abs() < 1e-6 { continue; }
                let (want, sens) = value(&m, o, p);
                if sens.is_nan() { continue; }
                let got = asp(b.f(wo, wi));
                cx.evals(1);
                cx.nontrivials((got != [0.; 3]) as u64);
                let tol = sens + if turned { 1e-5 / lo[2].abs().min(li[2].abs()) } else { 0. };
                if tol > 0.2 { cx.count("too sensitive to rounding", 1); continue; }
                if (0..3).any(|a| !(got[a] >= want[a].0 * (1. - tol) - 1e-7 && got[a] <= want[a].1 * (1. + tol) + 1e-7)) {
                    cx.fail(format!("{:?}, normals {:?} and {:?}, directions {:?} and {:?} (locally {:?} and {:?}): value {:?}, expected {:?}", m, f.gn, f.sn, wo, wi, o, p, got, want));
                    return;
                }
            }
        }
        cx.sample(|| format!("{:?}, normals {:?} and {:?}, seen along {:?}", m, f.gn, f.sn, wo));
    });

    // what sampling brings
    let n = c.pick(24usize, 64);
    c.family("matte samples", "matte surfaces: every sample of an n x n lattice (n = 24, thorough 64), seen along every direction of the lattice in 4 frames, carries the configured share; non-trivial: samples", (7 * frames.len() * dirs.len()) as u64, |i, cx| {
        let mut d = Digits(i);
        let (m, f, lo) = (mats[d.take(7)], *d.of(&frames), *d.of(&dirs));
        let k = match m { Mat::Matte(k) => k.map(|x| (x as f64).max(0.)), _ => unreachable!() };
        let b = f.bsdf(&m);
        let wo = v3(f.world(lo));
        for s in 0..n * n {
            let u = Point2f::new(((s % n) as f32 + 0.5) / n as f32, ((s / n) as f32 + 0.5) / n as f32);
            let (wi, v, pdf, _) = b.sample_f(wo, u);
            cx.evals(1);
            let (gs, ls) = (dot(a3(wo), f.gn) * dot(a3(wi), f.gn), dot(a3(wi), f.sn) * lo[2]);
            if k == [0.; 3] { if pdf != 0. && asp(v) != [0.; 3] { cx.fail(format!("{:?} scatters {:?}", m, v)); return; } continue; }
            if !(pdf > 0.) || ls <= 0. { cx.fail(format!("{:?}, normals {:?} and {:?}, seen along {:?}, numbers {:?}: direction {:?}, density {}", m, f.gn, f.sn, wo, u, wi, pdf)); return; }
            if gs <= 1e-6 { continue; }
            cx.nontrivials(1);
            let w = mul(asp(v), dot(a3(wi), f.sn).abs() / pdf as f64);
            let tol = 1e-5 + 1e-6 / dot(a3(wi), f.sn).abs();
            if (0..3).any(|a| !((w[a] - k[a]).abs() <= tol * k[a])) { cx.fail(format!("{:?}, normals {:?} and {:?}, seen along {:?}, numbers {:?}: the sample carries {:?}", m, f.gn, f.sn, wo, u, w)); return; }
        }
        cx.sample(|| format!("{:?}, normals {:?} and {:?}, seen along {:?}", m, f.gn, f.sn, wo));
    });

    // parameters from textures
    #[derive(Clone, Copy, Debug)]
    enum Kind { Matte, Mirror, Glass, Metal, Plastic }
    let kinds = [(Kind::Matte, 1usize), (Kind::Mirror, 1), (Kind::Glass, 5), (Kind::Metal, 5), (Kind::Plastic, 3)];
    let combos: Vec<(Kind, usize)> = kinds.iter().flat_map(|(k, n)| (0..1usize << n).map(move |m| (*k, m))).collect();
    let sets: usize = 3;
    c.family("textures", "every material with each of its parameters constant or a checkerboard in the plane or in space (all subsets of the parameters), at 8 surface positions in both kinds of cells: the values, densities and samples are those of the material made of the cell's values; three sets of values, one with roughness zero in one kind of cell; non-trivial: values", (combos.len() * sets * 2 * 8) as u64, |i, cx| {
        let mut d = Digits(i);
        let ((kind, mask), set, space, pos) = (*d.of(&combos), d.take(sets), d.take(2) == 1, d.take(8));
        let uv = [[0.2f32, 0.3], [1.1, 0.4], [1.6, 2.2], [-0.3, 0.4], [-1.2, -0.7], [5.5, 2.5], [0.5, 1.5], [2.5, -3.5]][pos];
        let p = [[0.2f32, 0.3, 0.4], [1.2, 0.1, 0.9], [-0.1, 0.4, 0.5], [-0.3, -0.4, 0.2], [3.3, 4.4, 5.5], [-2.2, -3.3, 1.1], [0.5, 1.5, 0.5], [7.5, -0.5, -0.5]][pos];
        let f = Frame::new([0.3, -0.5, 0.8], 0.2, 0.7);
        // not every parameter's board is the same one: the u-th is shifted
        let first = |u: usize| if space { ((p[0] + u as f32).floor() as i64 + p[1].floor() as i64 + p[2].floor() as i64).rem_euclid(2) == 0 } else { ((uv[0] * 1.5 + 0.25 + u as f32).floor() as i64 + (uv[1] * 0.75 - 0.5).floor() as i64).rem_euclid(2) == 0 };
        let board = |u: usize| -> Box<dyn Fn() -> Result<UVMapping2D, IdentityMapping3D>> { let sp = space; Box::new(move || if sp { Err(IdentityMapping3D::new(Transform::translate(u as f32, 0., 0.))) } else { Ok(UVMapping2D::new(1.5, 0.75, 0.25 + u as f32, -0.5)) }) };
        let sp = |u: usize, a: [f32; 3], b: [f32; 3]| -> (Arc<TexS>, Arc<TexS>, [f32; 3]) {
            let s = |v: [f32; 3]| Spectrum::new(v[0], v[1], v[2]);
            if mask >> u & 1 == 0 { let t: Arc<TexS> = Arc::new(ConstantTexture::new(s(a))); return (t.clone(), t, a); }
            let v = if first(u) { a } else { b };
            let t: Arc<TexS> = match board(u)() { Ok(m) => Arc::new(CheckerboardTexture::new(m, s(a), s(b))), Err(m) => Arc::new(Checkerboard3DTexture::new(m, s(a), s(b))) };
            (t, Arc::new(ConstantTexture::new(s(v))), v)
        };
        let fl = |u: usize, a: f32, b: f32| -> (Arc<TexF>, Arc<TexF>, f32) {
            if mask >> u & 1 == 0 { let t: Arc<TexF> = Arc::new(ConstantTexture::new(a)); return (t.clone(), t, a); }
            let v = if first(u) { a } else { b };
            let t: Arc<TexF> = match board(u)() { Ok(m) => Arc::new(CheckerboardTexture::new(m, a, b)), Err(m) => Arc::new(Checkerboard3DTexture::new(m, a, b)) };
            (t, Arc::new(ConstantTexture::new(v)), v)
        };
        let s0 = [([0.8f32, 0.5, 0.2], [0.1f32, 0.3, 0.6]), ([0.2, 0.4, 0.9], [0.; 3]), ([1., 0.9, 0.7], [-0.5, 0.5, 0.25])][set];
        let s1 = [([0.3f32, 0.6, 0.9], [0.5f32, 0.2, 0.1]), ([0.; 3], [0.7, 0.6, 0.5]), ([0.4, -0.2, 0.6], [0.9, 0.8, 0.7])][set];
        let r0 = [(0.3f32, 0.6f32), (0., 0.4), (0.5, 0.1)][set];
        let r1 = [(0.2f32, 0.7f32), (0., 0.5), (0.25, 0.8)][set];
        type M2 = (Arc<dyn Material>, Arc<dyn Material>);
        let (a, b): M2 = match kind {
            Kind::Matte => { let x = sp(0, s0.0, s0.1); (Arc::new(LambertianReflectionMaterial::new(x.0)), Arc::new(LambertianReflectionMaterial::new(x.1))) }
            Kind::Mirror => { let x = sp(0, s0.0, s0.1); (Arc::new(MirrorMaterial::new(x.0)), Arc::new(MirrorMaterial::new(x.1))) }
            Kind::Glass => { let (x, y, e, u, v) = (sp(0, s0.0, s0.1), sp(1, s1.0, s1.1), fl(2, 1.5, 1.2), fl(3, r0.0, r0.1), fl(4, r1.0, r1.1)); (Arc::new(GlassMaterial::new(x.0, y.0, e.0, u.0, v.0)), Arc::new(GlassMaterial::new(x.1, y.1, e.1, u.1, v.1))) }
            Kind::Metal => { let (x, e, k, u, v) = (sp(0, s0.0, s0.1), sp(1, [0.2, 0.92, 1.1], [1.5, 1.2, 3.]), sp(2, [3.9, 2.45, 2.14], [0.5, 1.5, 7.]), fl(3, r0.0, r0.1), fl(4, r1.0, r1.1)); (Arc::new(MetalMaterial::new(x.0, e.0, k.0, u.0, v.0)), Arc::new(MetalMaterial::new(x.1, e.1, k.1, u.1, v.1))) }
            Kind::Plastic => { let (x, y, r) = (sp(0, s0.0, s0.1), sp(1, s1.0, s1.1), fl(2, r0.0, r0.1)); (Arc::new(PlasticMaterial::new(x.0, y.0, r.0)), Arc::new(PlasticMaterial::new(x.1, y.1, r.1))) }
        };
        let it = Interaction { p: Point3f::new(p[0], p[1], p[2]), uv: Point2f::new(uv[0], uv[1]), ..f.interaction() };
        let (ba, bb): (BSDF, BSDF) = (a.compute_scattering(&it), b.compute_scattering(&it));
        let what = || format!("{:?}, set {}, checkerboards for the parameters {:#b} in {}, at {:?}", kind, set, mask, if space { "space" } else { "the plane" }, if space { p.to_vec() } else { uv.to_vec() });
        let same = |x: V, y: V| (0..3).all(|a| (x[a] - y[a]).abs() <= 1e-5 * y[a].abs() + 1e-9);
        for o in 0..10 { for w in 0..14 {
            let (o, w) = (v3(f.world(fib(o, 10))), v3(f.world(fib(w, 14))));
            let (x, y) = (asp(ba.f(o, w)), asp(bb.f(o, w)));
            let (q, r) = (ba.pdf(o, w) as f64, bb.pdf(o, w) as f64);
            cx.evals(2);
            cx.nontrivials((y != [0.; 3]) as u64);
            if !same(x, y) || (q - r).abs() > 1e-5 * r.abs() + 1e-9 { cx.fail(format!("{}, directions {:?} and {:?}: value {:?} and density {}, the material of the cell's values has {:?} and {}", what(), o, w, x, q, y, r)); return; }
        } }
        for o in 0..10 { for s in 0..9 {
            let o = v3(f.world(fib(o, 10)));
            let u = Point2f::new((s % 3) as f32 * 0.31 + 0.1, (s / 3) as f32 * 0.29 + 0.15);
            let (x, y) = (ba.sample_f(o, u), bb.sample_f(o, u));
            cx.evals(2);
            if x.3 != y.3 || x.3 & SPECULAR != y.3 & SPECULAR || !same(asp(x.1), asp(y.1)) || (x.2 - y.2).abs() > 1e-5 * y.2.abs() || !close(a3(x.0), a3(y.0), 1e-5) { cx.fail(format!("{}, seen along {:?}: sample {:?}, the material of the cell's values gives {:?}", what(), o, (x.0, x.1, x.2, x.3), (y.0, y.1, y.2, y.3))); return; }
        } }
        cx.sample(what);
    });
    // a roughness of zero along one tangent only
    let al = [0.1f32, 0.3, 0.6];
    let ns = c.pick(48usize, 200);
    c.family("smooth along one tangent", "metal and glass (3 indices, 3 shares) of roughness 0.1 to 0.6 along one tangent and zero along the other, seen from outside and inside: the facets that mirror an n x n lattice of samples (n = 48, thorough 200) lean as configured along the rough tangent and hardly along the other, and no sample counts as specular; non-trivial: samples", (10 * al.len() * 2 * frames.len() * 3 * 2) as u64, |i, cx| {
        let mut d = Digits(i);
        let (k, a, swap, f, c0, side) = (d.take(10), *d.of(&al), d.take(2) == 1, *d.of(&frames), *d.of(&[0.97f64, 0.8, 0.5]), d.take(2));
        let (u, v) = if swap { (0., a) } else { (a, 0.) };
        let m = if k == 9 { Mat::Metal(0.9, [0.2, 0.92, 1.1], [3.9, 2.45, 2.14], u, v) } else { let (r, t) = [(1f32, 1f32), (0.8, 0.), (0., 0.7)][k % 3]; Mat::Glass(r, t, [1.5, 1.2, 0.7][k / 3], u, v) };
        if k == 9 && side == 1 { return; }
        let s0 = (1. - c0 * c0).sqrt();
        let lo = [s0 * 0.6, s0 * 0.8, if side == 0 { c0 } else { -c0 }];
        let b = f.bsdf(&m);
        let wo = v3(f.world(lo));
        let (mut rough, mut smooth) = (vec![], vec![]);
        for q in 0..ns * ns {
            let (wi, val, pdf, kind) = b.sample_f(wo, Point2f::new(((q % ns) as f32 + 0.5) / ns as f32, ((q / ns) as f32 + 0.5) / ns as f32));
            if pdf == 0. || asp(val) == [0.; 3] { continue; }
            let what = || format!("{:?}, normals {:?} and {:?}, seen along {:?}", m, f.gn, f.sn, wo);
            if kind & SPECULAR != 0 { cx.fail(format!("{}: a sample towards {:?} counts as specular", what(), wi)); return; }
            let li = f.local(a3(wi));
            if li[2] * lo[2] <= 0. { continue; }
            let h = add(li, lo);
            let (x, y) = ((h[0] / h[2]).abs(), (h[1] / h[2]).abs());
            if swap { rough.push(y); smooth.push(x); } else { rough.push(x); smooth.push(y); }
        }
        cx.evals((ns * ns) as u64);
        cx.nontrivials(rough.len() as u64);
        if rough.len() < ns * ns / 50 { return; }
        let mid = |v: &mut Vec<f64>| { v.sort_by(|a, b| a.partial_cmp(b).unwrap()); v[v.len() / 2] };
        let (r, s) = (mid(&mut rough), mid(&mut smooth));
        if r < 0.15 * a as f64 || s > 0.03 * a as f64 {
            cx.fail(format!("{:?}, normals {:?} and {:?}, seen along {:?}: half of the mirroring facets lean less than {} along the rough tangent and {} along the smooth one", m, f.gn, f.sn, wo, r, s));
        }
    });
    c.finish();
}
type TexS = pt::texture::TextureSpectrum;
type TexF = pt::texture::TextureFloat;
