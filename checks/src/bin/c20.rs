//! C20: scattering is finite, non-negative, reciprocal, one-sided and conserves energy.
use checks::scatter::*;
use checks::*;
use mc::num::*;
use mc::{Check, Digits, Level};
use pt::vector::Point2f;
use std::f64::consts::TAU;

fn materials(rough: &[(f32, f32)], shares: &[(f32, f32)]) -> Vec<Mat> {
    let mut m = vec![Mat::Matte([1., 0.5, 0.]), Mat::Matte([0., 0., 0.])];
    for (u, v) in rough {
        for (e, k) in [([0.2, 0.92, 1.1], [3.9, 2.45, 2.14]), ([1.5, 1.05, 0.2], [0.1, 0.02, 0.])] { m.push(Mat::Metal(1., e, k, *u, *v)); }
        for (r, t) in shares { for e in [1.5f32, 2.4, 0.75, 1.] { m.push(Mat::Glass(*r, *t, e, *u, *v)); } }
        if u == v { for (d, s) in [(0.5, 0.5), (0., 1.), (1., 0.), (0.25, 0.5)] { m.push(Mat::Plastic(d, s, *u)); } }
    }
    m
}

fn main() {
    let mut c = Check::new("C20", Level::Exploration);
    let shares = [(1f32, 1f32), (1., 0.), (0., 1.), (0.5, 0.25)];
    let frames = [Frame::plain(), Frame::new([0.3, -0.5, 0.8], 0., 0.7), Frame::new([-1., 0.2, 0.1], 0.35, 2.), Frame::new([0., 0.1, -1.], -0.6, -1.)];

    // every pair of directions
    let rough: Vec<(f32, f32)> = [(0., 0.), (0., 0.3), (0.3, 0.), (0.01, 0.01), (0.1, 0.1), (0.5, 0.5), (1., 1.), (0.1, 0.6), (1., 0.2), (0.01, 1.)].to_vec();
    let mats = materials(&rough, &shares);
    let mut dirs: Vec<V> = vec![];
    let zs: &[f64] = c.pick(&[1., 0.9, 0.5, 0.1, 1e-3, 1e-5, 1e-9], &[1., 0.9999, 0.95, 0.8, 0.6, 0.5, 0.35, 0.2, 0.1, 0.03, 1e-2, 1e-3, 1e-4, 1e-5, 1e-7, 1e-9]);
    let nphi = c.pick(6, 16);
    for z in zs { for s in [1., -1.] { for p in 0..if *z == 1. { 1 } else { nphi } { dirs.push(polar(z * s, p as f64 * TAU / nphi as f64)); } } }
    c.family("pairs", "matte, metal, glass (index below, at and above one; both shares, one or part), plastic with 10 roughnesses including zero, mixed with zero and unequal, in 4 frames (two with a tilted shading normal): all pairs of a direction lattice over both hemispheres down to grazing cosines of 1e-9: finite, non-negative, zero on the side without a lobe, symmetric; non-trivial: pairs with a positive value", (mats.len() * frames.len() * dirs.len()) as u64, |i, cx| {
        let mut d = Digits(i);
        let (m, f, lo) = (*d.of(&mats), *d.of(&frames), *d.of(&dirs));
        let b = f.bsdf(&m);
        let wo = v3(f.world(lo));
        for li in &dirs {
            let wi = v3(f.world(*li));
            let what = || format!("{:?}, normals {:?} and {:?}, directions {:?} and {:?}", m, f.gn, f.sn, wo, wi);
            let (v, w) = (asp(b.f(wo, wi)), asp(b.f(wi, wo)));
            cx.evals(2);
            if v.iter().chain(w.iter()).any(|x| !(*x >= 0. && x.is_finite())) { cx.fail(format!("{}: value {:?}, exchanged {:?}", what(), v, w)); return; }
            cx.nontrivials((v != [0.; 3]) as u64);
            let (co, ci) = (dot(a3(wo), f.gn), dot(a3(wi), f.gn));
            if co.abs() < 1e-6 || ci.abs() < 1e-6 { continue; }
            let across = co * ci < 0.;
            let lobe = match m { Mat::Glass(r, t, ..) => if across { t > 0. } else { r > 0. }, _ => !across };
            if !lobe && v != [0.; 3] { cx.fail(format!("{}: value {:?} {} the surface, where the material has no lobe", what(), v, if across { "across" } else { "on one side of" })); return; }
            // exchange; next to grazing the value is too sensitive to the rounding of the cosines
            if lo[2].abs() < 1e-4 || li[2].abs() < 1e-4 { continue; }
            // the sides of the shading and of the geometric normal may differ
            let through = across && lo[2] * li[2] < 0.;
            let s = if through { let e = m.eta(); if lo[2] > 0. { e * e } else { 1. / (e * e) } } else { 1. };
            // likewise where the joining microfacet stands on edge
            let e = if !through { 1. } else if lo[2] > 0. { m.eta() } else { 1. / m.eta() };
            let h = add(lo, mul(*li, e));
            if h[2].abs() < 1e-3 * len(h) || len(h) < 1e-3 { continue; }
            // f(wo, wi) / eta_o^2 = f(wi, wo) / eta_i^2
            for a in 0..3 {
                let (x, y) = (v[a] * s, w[a]);
                if (x - y).abs() > 0.02 * x.max(y) + 2e-4 { cx.fail(format!("{}: value {:?}, exchanged {:?}, expected ratio {}", what(), v, w, s)); return; }
            }
        }
        cx.sample(|| format!("{:?}, normals {:?} and {:?}, direction {:?}", m, f.gn, f.sn, wo));
    });

    // energy, by sampling
    let rough: Vec<(f32, f32)> = c.pick(vec![(0.05, 0.05), (0.3, 0.3), (1., 1.), (0.1, 0.6), (0., 0.3), (0.5, 0.), (0., 0.)], vec![(0.02, 0.02), (0.05, 0.05), (0.1, 0.1), (0.3, 0.3), (0.6, 0.6), (1., 1.), (0.1, 0.6), (1., 0.2), (0., 0.3), (0.5, 0.), (0., 0.)]);
    let mats = materials(&rough, &[(1., 1.), (1., 0.), (0., 1.)]);
    let cosines = c.pick(vec![0.999, 0.85, 0.6, 0.35, 0.1, 0.01, 5e-4], vec![0.999, 0.95, 0.85, 0.75, 0.6, 0.45, 0.35, 0.2, 0.1, 0.05, 0.01, 5e-4, 1e-5]);
    let n = c.pick(192usize, 640);
    let scatter = |m: &Mat, f: &Frame, wo: V, wi: V| if dot(wo, f.gn) * dot(wi, f.gn) > 0. { 1. } else { let e = m.eta(); if dot(wo, f.gn) > 0. { e * e } else { 1. / (e * e) } };
    c.family("energy of samples", "the same kinds of material with reflectances adding up to one, several angles from both sides and 2 azimuths: the light scattered, averaged over the complete n x n lattice of samples (n = 192, thorough 640), does not exceed the light received; clear glass returns most of it; non-trivial: samples", (mats.len() * 2 * cosines.len() * 2 * 2) as u64, |i, cx| {
        let mut d = Digits(i);
        let (m, f, cs, side, ph) = (*d.of(&mats), frames[d.take(2)], *d.of(&cosines), d.take(2), [0.4, 1.9][d.take(2)]);
        let wo = f.world(polar(if side == 0 { cs } else { -cs }, ph));
        let b = f.bsdf(&m);
        let mut sum = [0f64; 3];
        for k in 0..n * n {
            let u = Point2f::new(((k % n) as f32 + 0.5) / n as f32, ((k / n) as f32 + 0.5) / n as f32);
            let (wi, v, pdf, _) = b.sample_f(v3(wo), u);
            if pdf == 0. { continue; }
            cx.nontrivials(1);
            let (w, v) = (a3(wi), asp(v));
            for a in 0..3 { sum[a] += v[a] * dot(w, f.sn).abs() / pdf as f64 * scatter(&m, &f, wo, w) / (n * n) as f64; }
        }
        cx.evals((n * n) as u64);
        let what = || format!("{:?}, normal {:?}, seen along {:?} (cosine {})", m, f.sn, wo, dot(wo, f.sn));
        if sum.iter().any(|x| !(*x >= 0. && *x <= 1.02)) { cx.fail(format!("{}: scatters {:?} of the light", what(), sum)); return; }
        cx.sample(|| format!("{}: {:?}", what(), sum));
    });

    // energy, by integration of the value over all directions
    let rough: Vec<(f32, f32)> = c.pick(vec![(0.15, 0.15), (0.4, 0.4), (1., 1.), (0.2, 0.6)], vec![(0.1, 0.1), (0.15, 0.15), (0.25, 0.25), (0.4, 0.4), (0.7, 0.7), (1., 1.), (0.2, 0.6), (1., 0.3)]);
    let mats = materials(&rough, &[(1., 1.), (1., 0.), (0., 1.)]);
    let (qz, qp) = (c.pick(240usize, 800), c.pick(160usize, 400));
    c.family("energy of all directions", "rough materials with reflectances adding up to one, several angles from both sides: the value integrated over the whole sphere on a lattice of angles that is finest where grazing light is mirrored to (240 x 160, thorough 800 x 400) does not exceed one; non-trivial: directions with a positive value", (mats.len() * 2 * cosines.len() * 2) as u64, |i, cx| {
        let mut d = Digits(i);
        let (m, f, cs, side) = (*d.of(&mats), frames[d.take(2)], *d.of(&cosines), d.take(2));
        let wo = f.world(polar(if side == 0 { cs } else { -cs }, 0.7));
        let b = f.bsdf(&m);
        let mut sum = [0f64; 3];
        // from -1 to 1, finest about 0, and how fast it changes
        let warp = |k: usize, n: usize| { let x = (k as f64 + 0.5) / n as f64 * 2. - 1.; (0.2 * x + 0.8 * x * x * x, (0.2 + 2.4 * x * x) * 2. / n as f64) };
        for z in 0..qz { for p in 0..qp {
            let ((x, jx), (y, jy)) = (warp(z, qz), warp(p, qp));
            let th = (1. + x) * TAU / 4.;
            let l = polar(th.cos(), 0.7 + (1. + y) * TAU / 2.);
            let w = f.world(l);
            let v = asp(b.f(v3(wo), v3(w)));
            if v != [0.; 3] { cx.nontrivials(1); }
            for a in 0..3 { sum[a] += v[a] * l[2].abs() * th.sin() * jx * jy * scatter(&m, &f, wo, w); }
        } }
        cx.evals((qz * qp) as u64);
        let e = sum.map(|x| x * TAU / 4. * TAU / 2.);
        let what = || format!("{:?}, normal {:?}, seen along {:?} (cosine {})", m, f.sn, wo, dot(wo, f.sn));
        if e.iter().any(|x| !(*x >= 0. && *x <= 1.02)) { cx.fail(format!("{}: scatters {:?} of the light", what(), e)); return; }
        cx.sample(|| format!("{}: {:?}", what(), e));
    });
    c.finish();
}
