//! C23: paths carry exactly the light of their bounces, each emitter once.
use checks::paths::{mean, shared};
use checks::scatter::{fresnel, fresnel_metal, Mat};
use checks::*;
use mc::num::*;
use mc::{Check, Cx, Digits, Level};
use pt::api::*;
use pt::ray::Ray;
use pt::scene::Scene;
use std::sync::Arc;

type P = [f64; 3];
fn mad(o: P, d: P, t: f64) -> P { add(o, mul(d, t)) }
fn had(a: P, b: P) -> P { [a[0] * b[0], a[1] * b[1], a[2] * b[2]] }

#[derive(Clone, Copy, Debug)]
enum Geo { Tri([P; 3]), Ball(P, f64) }
#[derive(Clone, Copy, Debug)]
enum Stuff { Lamp(P), Made(Mat), Glow(Mat, P) }
type Obj = (Geo, Stuff);

/// A hit: distance, outward or winding normal, clearance from edges and silhouettes.
fn hit(g: &Geo, o: P, d: P) -> Option<(f64, P, f64)> {
    match g {
        Geo::Tri(v) => {
            let n = norm(cross(sub(v[1], v[0]), sub(v[2], v[0])));
            let den = dot(n, d);
            if den.abs() < 1e-9 { return None; }
            let t = dot(n, sub(v[0], o)) / den;
            let p = mad(o, d, t);
            let m = (0..3).map(|k| { let e = sub(v[(k + 1) % 3], v[k]); dot(cross(e, sub(p, v[k])), n) / len(e) }).fold(f64::MAX, f64::min);
            if t > 1e-4 && m > -1e-3 { Some((t, n, m)) } else { None }
        }
        Geo::Ball(c, r) => {
            let l = sub(o, *c);
            let (b, q) = (dot(d, l), dot(l, l) - r * r);
            let disc = b * b - q;
            if disc < -1e-3 { return None; }
            let s = disc.max(0.).sqrt();
            let t = if -b - s > 1e-4 { -b - s } else { -b + s };
            if t <= 1e-4 { return None; }
            Some((t, norm(sub(mad(o, d, t), *c)), disc / r))
        }
    }
}

/// Radiance along the ray over the tree of reflections and refractions of at
/// most `depth` bounces, and the weight of what lies deeper.  None: too close to an edge to tell.
fn tree(objs: &[Obj], o: P, d: P, depth: u32) -> Option<(P, P)> {
    let mut best: Option<(f64, P, usize)> = None;
    let mut near: Vec<f64> = vec![];
    for (k, (g, _)) in objs.iter().enumerate() {
        if let Some((t, n, m)) = hit(g, o, d) {
            if m < 1e-3 { near.push(t); }
            if best.map_or(true, |b| t < b.0) { best = Some((t, n, k)); }
        }
    }
    let (t, n, k) = match best { Some(b) => b, None => return Some(([0.; 3], [0.; 3])) };
    // an edge counts only at or before the surface hit; edges shared within a plane do not matter
    if near.iter().any(|x| *x <= t + 1e-3) {
        let same = objs.iter().filter(|(g, _)| hit(g, o, d).map_or(false, |h| (h.0 - t).abs() < 1e-6 && dot(h.1, n) > 0.999)).count();
        if same < 2 || near.iter().any(|x| *x < t - 1e-3) { return None; }
    }
    let p = mad(o, d, t);
    let c = -dot(d, n);
    match objs[k].1 {
        Stuff::Lamp(l) => Some((if c > 0. { l } else { [0.; 3] }, [0.; 3])),
        Stuff::Made(m) | Stuff::Glow(m, _) => {
            let own = match objs[k].1 { Stuff::Glow(_, l) if c > 0. => l, _ => [0.; 3] };
            let n1 = if c > 0. { n } else { mul(n, -1.) };
            let r = match m { Mat::Mirror(k) => k.map(|x| x as f64), Mat::Glass(kr, _, e, ..) => [kr as f64 * fresnel(c, e as f64); 3], Mat::Metal(r, e, k, ..) => [0, 1, 2].map(|a| r as f64 * fresnel_metal(c, e[a] as f64, k[a] as f64)), _ => [0.; 3] };
            let mut rays = vec![(r, mad(d, n1, 2. * c.abs()))];
            if let Mat::Glass(_, kt, e, ..) = m {
                let f = 1. - fresnel(c, e as f64);
                let g = if c > 0. { 1. / e as f64 } else { e as f64 };
                let s2 = g * g * (1. - c * c);
                if f > 0. && s2 < 1. && kt > 0. {
                    let w = mad(mul(d, g), n1, g * c.abs() - (1. - s2).sqrt());
                    rays.push(([kt as f64 * f * g * g; 3], norm(w)));
                }
            }
            let (mut l, mut rest) = (own, [0.; 3]);
            for (w, dir) in rays {
                if w == [0.; 3] { continue; }
                if depth == 0 { rest = add(rest, w); continue; }
                let (a, b) = tree(objs, p, dir, depth - 1)?;
                l = add(l, had(w, a));
                rest = add(rest, had(w, b));
            }
            Some((l, rest))
        }
    }
}

fn scene(objs: &[Obj], scale: f64) -> Scene<KdTree> {
    let mut b = Builder::new();
    for (g, s) in objs {
        match (g, s) {
            (Geo::Tri(v), Stuff::Lamp(l)) => b.add_area_light(AreaLight::new(Spectrum::new((l[0] * scale) as f32, (l[1] * scale) as f32, (l[2] * scale) as f32), Triangle::new(v.map(p3), None, false, Arc::new(NoMaterial)))),
            (Geo::Tri(v), Stuff::Made(m)) => b.add_shape(Triangle::new(v.map(p3), None, false, m.make())),
            (Geo::Tri(v), Stuff::Glow(m, l)) => b.add_area_light(AreaLight::new(Spectrum::new((l[0] * scale) as f32, (l[1] * scale) as f32, (l[2] * scale) as f32), Triangle::new(v.map(p3), None, false, m.make()))),
            (Geo::Ball(c, r), Stuff::Made(m)) => b.add_shape(Sphere::new(p3(*c), *r as f32, m.make())),
            _ => unreachable!(),
        }
    }
    b.construct(|s| KdTree::new(s, None))
}
fn ray(o: P, d: P) -> Ray { Ray { origin: p3(o), direction: v3(norm(d)), t_max: f32::INFINITY } }
fn quad(a: P, u: P, v: P, s: Stuff) -> Vec<Obj> { let (b, c, e) = (add(a, u), add(add(a, u), v), add(a, v)); vec![(Geo::Tri([a, b, c]), s), (Geo::Tri([a, c, e]), s)] }

/// A closed room of six luminous walls around the origin, seen from inside.
fn room(r: f64, l: &[P; 6]) -> Vec<Obj> {
    let (x, y, z) = ([2. * r, 0., 0.], [0., 2. * r, 0.], [0., 0., 2. * r]);
    let (lo, hi) = ([-r, -r, -r], [r, r, r]);
    let neg = |v: P| mul(v, -1.);
    let mut o = vec![];
    o.extend(quad(lo, x, y, Stuff::Lamp(l[0])));
    o.extend(quad(lo, y, z, Stuff::Lamp(l[1])));
    o.extend(quad(lo, z, x, Stuff::Lamp(l[2])));
    o.extend(quad(hi, neg(y), neg(x), Stuff::Lamp(l[3])));
    o.extend(quad(hi, neg(z), neg(y), Stuff::Lamp(l[4])));
    o.extend(quad(hi, neg(x), neg(z), Stuff::Lamp(l[5])));
    o
}

/// The strata of the numbers a path draws over so many bounces: both lobes,
/// fine steps for the termination decisions, most for the first.
fn specular_dims(layout: &[char], bounces: usize, lobes: u32, rr: &dyn Fn(usize) -> &'static [u32]) -> Vec<u32> {
    let mut end = 0;
    let (mut n, mut r) = (0, 0);
    for (k, c) in layout.iter().enumerate() {
        if *c == 'N' { n += 1; }
        if *c == 'R' { r += 1; }
        end = k + 1;
        if n == 2 * bounces && layout.get(k + 1) != Some(&'R') { break; }
    }
    let steps = rr(r);
    let (mut v, mut r, mut n) = (vec![], 0, 0);
    for c in &layout[..end] {
        match c {
            'R' => { v.push(steps.get(r).cloned().unwrap_or(1)); r += 1; }
            'N' => { v.push(if n % 2 == 0 { lobes } else { 1 }); n += 1; }
            _ => v.push(1),
        }
    }
    v
}

fn specular(objs: &[Obj], o: P, d: P, bounces: usize, layout: &[char], lobes: u32, rr: &dyn Fn(usize) -> &'static [u32], tol: f64, side: usize, what: &dyn Fn() -> String, cx: &mut Cx) {
    let (o32, d32) = (ap(p3(o)), norm(a3(v3(norm(d)))));
    let (want, rest) = match tree(objs, o32, d32, bounces as u32) { Some(x) => x, None => { cx.count("next to an edge", 1); return; } };
    let top = want.iter().cloned().fold(0., f64::max);
    let lmax = objs.iter().map(|(_, s)| match s { Stuff::Lamp(l) | Stuff::Glow(_, l) => l.iter().cloned().fold(0., f64::max), _ => 0. }).fold(0., f64::max);
    if rest.iter().any(|x| x * lmax > 0.03 * top.max(1e-9)) && top > 0. { cx.count("too much light from more bounces", 1); return; }
    let scale = if top > 0. { ((0.35 / top) as f32) as f64 } else { 1. };
    let dims = specular_dims(layout, bounces, lobes, rr);
    match mean(scene(objs, scale), &ray(o, d), &dims, side) {
        Err(m) => cx.fail(format!("{}: {}", what(), m)),
        Ok((got, _)) => {
            cx.evals((side * side) as u64 * dims.iter().product::<u32>() as u64);
            cx.nontrivials((top > 0.) as u64);
            for a in 0..3 {
                let w = want[a] * scale;
                let slack = 2. * rest[a] * lmax * scale;
                let ok = if top == 0. && rest == [0.; 3] { got[a] == 0. } else { (got[a] - w).abs() <= tol * w + 0.003 + slack };
                if !ok { cx.fail(format!("{}: the mean over all samples is {:?}, the bounces give {:?} (and at most {:?} from more than {} bounces)", what(), got.map(|x| x / scale), want, mul(rest, lmax), bounces)); return; }
            }
            cx.sample(|| format!("{}: {:?}, expected {:?}", what(), got.map(|x| x / scale), want));
        }
    }
}

fn main() {
    let mut c = Check::new("C23", Level::Exploration);
    let side = 4;
    let white = |l: P| [l; 6];
    let coloured: [P; 6] = [[1., 0.1, 0.2], [0.1, 0.9, 0.3], [0.3, 0.2, 1.], [0.8, 0.8, 0.1], [0.1, 0.7, 0.9], [0.9, 0.2, 0.8]];

    let plan = {
        let mut o = quad([-5., -20., 0.], [60., 0., 0.], [0., 40., 0.], Stuff::Made(Mat::Mirror([1.; 3])));
        o.extend(quad([-5., -20., 1.], [0., 40., 0.], [60., 0., 0.], Stuff::Made(Mat::Mirror([1.; 3]))));
        o.extend(quad([-9., -2., -0.5], [0., 0., 2.], [0., 4., 0.], Stuff::Lamp([1.; 3])));
        checks::paths::layout(scene(&o, 1.), &ray([0., 0.013, 0.5], [1., 0.005, 1.]))
    };
    let plan = if plan.iter().filter(|c| **c == 'N').count() >= 20 { plan } else { (0..12).flat_map(|b| if b < 3 { "LAABBNN" } else { "LAABBNNR" }.chars()).collect() };
    // corridors of mirrors
    let refl: Vec<[f32; 3]> = vec![[1.; 3], [0.8, 0.8, 0.8], [0.9, 0.6, 0.3], [0.5; 3], [0.6, 0.9, 0.], [0., 0.9, 0.8], [0.95, 0., 0.95], [0.; 3], [4e-4, 9e-4, 6e-4]];
    let nmax = c.pick(7usize, 9);
    let decisions: [&'static [u32]; 7] = [&[], &[512], &[256, 16], &[128, 16, 8], &[64, 8, 8, 8], &[64, 8, 6, 6, 6], &[64, 6, 4, 4, 4, 4]];
    c.family("mirrors", "a corridor of two mirrors of 9 reflectances (grey, coloured, saturated, one, zero, nearly zero), or of one mirror and one smooth metal wall, with an emitter across it or none, seen so that 0 to 7 (thorough 9) bounces lie between: all termination decisions on a grid; non-trivial: light arrives", (refl.len() * (nmax + 1) * 3 * 2) as u64, |i, cx| {
        let mut d = Digits(i);
        let (r, n, kind, back) = (*d.of(&refl), d.take(nmax + 1), d.take(3), d.take(2));
        if r[0] == 4e-4 && n > 2 { return; }
        let m1 = Stuff::Made(Mat::Mirror(r));
        let m2 = if kind == 1 { Stuff::Made(Mat::Metal(r[0], [0.2, 0.92, 1.1], [3.9, 2.45, 2.14], 0., 0.)) } else { m1 };
        // slope 1: a bounce per unit of x, at x = 0.5, 1.5, ...
        let mut o = quad([-5., -20., 0.], [60., 0., 0.], [0., 40., 0.], m1);
        o.extend(quad([-5., -20., 1.], [0., 40., 0.], [60., 0., 0.], m2));
        let l = if back == 0 { [1., 0.7, 0.4] } else { [0.2, 0.5, 1.] };
        let x = n as f64;
        if kind != 2 { o.extend(quad([x, -2., -0.5], [0., 0., 2.], [0., 4., 0.], Stuff::Lamp(if back == 0 { l } else { [0.; 3] }))); }
        // the other side of the emitter, and one behind it that must not be seen
        o.extend(quad([x + 0.01, -2., -0.5], [0., 4., 0.], [0., 0., 2.], Stuff::Lamp([7.; 3])));
        if kind == 2 { o.truncate(4); o.extend(quad([x, -2., -0.5], [0., 4., 0.], [0., 0., 2.], Stuff::Lamp(l))); }
        let what = || format!("corridor of {:?} and {:?}, emitter at {} of radiance {:?} (kind {})", m1, m2, x, l, kind);
        specular(&o, [0., 0.013, 0.5], [1., 0.005, 1.], n.max(1), &plan, 1, &|r| decisions[r.min(6)], 0.02 + 0.01 * n.saturating_sub(3) as f64, side, &what, cx);
    });

    // corridors whose walls glow themselves
    let glow: Vec<P> = vec![[0.02, 0.01, 0.005], [0.3, 0.5, 0.4]];
    let grefl: Vec<[f32; 3]> = vec![[0.8; 3], [0.5, 0.9, 0.3], [0.95, 0.6, 0.8]];
    c.family("glowing mirrors", "the corridor with walls that emit light themselves and mirror it (both, or one of the two), faintly or strongly, with an emitter across it 0 to 6 bounces away: what each wall emits and mirrors, once; non-trivial: light arrives", (glow.len() * grefl.len() * 7 * 3) as u64, |i, cx| {
        let mut d = Digits(i);
        let (l, r, n, both) = (*d.of(&glow), *d.of(&grefl), d.take(7), d.take(3));
        let (m1, m2) = (Stuff::Made(Mat::Mirror(r)), Stuff::Glow(Mat::Mirror(r), l));
        let mut o = quad([-5., -20., 0.], [60., 0., 0.], [0., 40., 0.], if both == 1 { m1 } else { m2 });
        o.extend(quad([-5., -20., 1.], [0., 40., 0.], [60., 0., 0.], if both == 2 { m1 } else { m2 }));
        let x = n as f64;
        o.extend(quad([x, -2., -0.5], [0., 0., 2.], [0., 4., 0.], Stuff::Lamp([1., 0.7, 0.4])));
        o.extend(quad([x + 0.01, -2., -0.5], [0., 4., 0.], [0., 0., 2.], Stuff::Lamp([7.; 3])));
        let what = || format!("corridor of mirrors of reflectance {:?} and radiance {:?} ({}), emitter at {}", r, l, both, x);
        specular(&o, [0., 0.013, 0.5], [1., 0.005, 1.], n.max(1), &plan, 1, &|r| decisions[r.min(6)], 0.02 + 0.01 * n.saturating_sub(3) as f64, side, &what, cx);
    });

    // long corridors: every termination decision on its own
    let long_plan = {
        let mut o = quad([-5., -20., 0.], [110., 0., 0.], [0., 40., 0.], Stuff::Made(Mat::Mirror([1.; 3])));
        o.extend(quad([-5., -20., 1.], [0., 40., 0.], [110., 0., 0.], Stuff::Made(Mat::Mirror([1.; 3]))));
        o.extend(quad([-9., -2., -0.5], [0., 0., 2.], [0., 4., 0.], Stuff::Lamp([1.; 3])));
        checks::paths::layout(scene(&o, 1.), &ray([0., 0.013, 0.5], [1., 0.005, 1.]))
    };
    let lens = c.pick(vec![8usize, 12, 17, 24, 33, 47, 60], (8..=60).collect());
    let faint: Vec<([f32; 3], [f32; 3])> = vec![([0.2; 3], [0.2; 3]), ([0.05; 3], [0.05; 3]), ([0.01; 3], [1.; 3]), ([0.3, 0.02, 0.001], [0.1, 0.4, 0.2]), ([0.4; 3], [0.02; 3])];
    let long_refl: Vec<([f32; 3], [f32; 3])> = vec![([1.; 3], [1.; 3]), ([0.9; 3], [0.9; 3]), ([0.96, 0.93, 0.9], [0.99, 1., 0.95]), ([0.5; 3], [0.98; 3]), ([0.3; 3], [1.; 3])];
    c.family("long paths", "a corridor of two mirrors of 5 pairs of reflectances with an emitter 8 to 60 bounces away: the numbers of each termination decision scanned in 64 and then 64 ever finer steps while the others let the path live, until the chance of survival of every decision is known; their product times the light of the surviving path is the product of the reflectances; also 3 to 7 bounces between 5 pairs of mirrors so dark that hardly a path lives; non-trivial: light arrives", (lens.len() * long_refl.len() + faint.len() * 5) as u64, |i, cx| {
        let mut d = Digits(i);
        let (n, (r1, r2)) = if i < (faint.len() * 5) as u64 { (d.take(5) + 3, *d.of(&faint)) } else { d.0 -= (faint.len() * 5) as u64; (*d.of(&lens), *d.of(&long_refl)) };
        let mut o = quad([-5., -20., 0.], [110., 0., 0.], [0., 40., 0.], Stuff::Made(Mat::Mirror(r2)));
        o.extend(quad([-5., -20., 1.], [0., 40., 0.], [110., 0., 0.], Stuff::Made(Mat::Mirror(r1))));
        let x = n as f64;
        o.extend(quad([x, -2., -0.5], [0., 0., 2.], [0., 4., 0.], Stuff::Lamp([1.; 3])));
        o.extend(quad([x + 0.01, -2., -0.5], [0., 4., 0.], [0., 0., 2.], Stuff::Lamp([7.; 3])));
        let view = ray([0., 0.013, 0.5], [1., 0.005, 1.]);
        let want: P = [0, 1, 2].map(|a| (r1[a] as f64).powi((n as i32 + 1) / 2) * (r2[a] as f64).powi(n as i32 / 2));
        // the places of the decisions among the numbers of a path of n bounces
        let (mut at, mut nn, mut calls) = (vec![], 0, 0);
        for ch in &long_plan { match ch { 'R' => at.push(calls), 'N' => nn += 1, _ => () } calls += 1; if nn == 2 * n && *ch != 'R' && long_plan.get(calls) != Some(&'R') { break; } if nn == 2 * n && *ch == 'R' { break; } }
        let what = || format!("corridor of mirrors {:?} and {:?} with an emitter {} bounces away", r1, r2, n);
        // one number per pixel
        let run = |scale: f64, rows: usize, f: &dyn Fn(usize, usize) -> (usize, f32)| -> Result<Vec<[f64; 3]>, String> {
            let table: Vec<(usize, f32)> = (0..64 * rows).map(|k| f(k % 64, k / 64)).collect();
            let s = FnSampler::new(1, move |p, _, call| { if call < 2 { return 0.5; } let (w, v) = table[p.y as usize * 64 + p.x as usize]; if call as usize - 2 == w { v } else { 1e-7 } });
            let film = pt::film::Film::new(Point2u::new(64, rows as u32), box_filter(0.5));
            let (sc, view) = (scene(&o, scale), view.clone());
            let img = image_of(move || pt::integrator::Integrator::new(sc, s, FixedCamera(view), film).render(1))?;
            if (img.w, img.h) != (64, rows) { return Err(format!("image of {} x {}", img.w, img.h)); }
            Ok(img.px.iter().map(|p| [0, 1, 2].map(|a| linear(p[a] as f64))).collect())
        };
        let fail = |cx: &mut Cx, m: String| cx.fail(format!("{}: {}", what(), m));
        // how bright is the surviving path?
        let mut scale = 1.;
        let mut top = 0.;
        for _ in 0..30 {
            let v = match run(scale, 1, &|_, _| (usize::MAX, 0.)) { Ok(v) => v, Err(m) => return fail(cx, m) };
            top = v[0].iter().cloned().fold(0., f64::max);
            if top >= 0.999 { scale *= 0.1; } else if top < 0.2 { scale *= 4.; if scale > 1e12 { break; } } else { break; }
        }
        if top < 0.2 { return fail(cx, format!("no light arrives though all decisions are for survival, {:?} should", want)); }
        scale = ((scale * 0.9 / top) as f32) as f64;
        let base = match run(scale, 1, &|_, _| (usize::MAX, 0.)) { Ok(v) => v[0], Err(m) => return fail(cx, m) };
        let rows = at.len().max(1);
        let lit = |p: &[f64; 3]| p[0] + p[1] + p[2] > 0.;
        // where each decision turns: an interval that holds the place, or the part of the numbers that survive if there is no such place
        let mut span: Vec<Result<(f64, f64), f64>> = vec![Ok((0., 1.)); rows];
        for _ in 0..4 {
            let s = span.clone();
            let done = |x: &Result<(f64, f64), f64>| match x { Ok((l, h)) => h - l <= 2e-4 * l, Err(_) => true };
            if s.iter().all(|x| done(x)) { break; }
            let v = match run(scale, rows, &|x, y| (at.get(y).cloned().unwrap_or(usize::MAX), match s[y] { Ok((l, h)) => (l + (h - l) * (x as f64 + 0.5) / 64.).min(0.99999994) as f32, Err(_) => 0. })) { Ok(v) => v, Err(m) => return fail(cx, m) };
            cx.evals(64 * rows as u64);
            for y in 0..rows {
                if done(&s[y]) { continue; }
                let (l, h) = s[y].unwrap();
                let r = &v[y * 64..y * 64 + 64];
                let k = r.iter().filter(|p| lit(p)).count();
                let w = (h - l) / 64.;
                span[y] = if (0..k).all(|x| lit(&r[x])) { Ok(((l + (k as f64 - 0.5) * w).max(l), (l + (k as f64 + 0.5) * w).min(h))) } else { Err(l + k as f64 * w) };
            }
        }
        let q: f64 = span.iter().map(|s| match s { Ok((_, 1.)) => 1., Ok((l, h)) => 0.5 * (l + h), Err(q) => *q }).product();
        cx.nontrivials(1);
        for a in 0..3 {
            let (w, g) = (want[a] * scale, base[a] * q);
            if !((g - w).abs() <= (0.012 + 0.0004 * rows as f64) * w + 0.004 * q) {
                return fail(cx, format!("a surviving path brings {:?} and survives with probability {}: {:?} in the mean; the reflectances give {:?}", base.map(|x| x / scale), q, base.map(|x| x * q / scale), want));
            }
        }
        cx.sample(|| format!("{}: surviving paths bring {:?}, chance {}, product {:?}, expected {:?}", what(), base.map(|x| x / scale), q, base.map(|x| x * q / scale), want));
    });

    // glass and metal objects in a luminous room
    let etas = c.pick(vec![1.5f32, 0.7], vec![1.5f32, 1.33, 2.4, 0.7]);
    let shares = [(1f32, 1f32), (0.6, 0.9), (0., 1.), (1., 0.)];
    let views = c.pick(6, 14);
    let depth = c.pick(5usize, 6);
    let rr2: &'static [u32] = c.pick(&[16, 6], &[20, 8]);
    c.family("glass", "a glass ball, a slab, two parallel slabs, a prism, or a glass ball before a mirror, of several indices and shares, in a room of six walls of equal or of different radiance, seen along several directions: all choices of reflection and refraction up to 5 (thorough 6) bounces, all termination decisions on a grid; non-trivial: light arrives", (etas.len() * shares.len() * 5 * 2 * views) as u64, |i, cx| {
        let mut d = Digits(i);
        let (eta, (kr, kt), form, col, view) = (*d.of(&etas), *d.of(&shares), d.take(5), d.take(2), d.take(views));
        let g = Stuff::Made(Mat::Glass(kr, kt, eta, 0., 0.));
        let mut o = room(5., &if col == 0 { white([1., 0.5, 0.25]) } else { coloured });
        let slab = |z: f64, h: f64| { let mut o = quad([-6., -6., z + h], [12., 0., 0.], [0., 12., 0.], g); o.extend(quad([-6., -6., z], [0., 12., 0.], [12., 0., 0.], g)); o };
        match form {
            0 => o.push((Geo::Ball([0.1, -0.2, 0.3], 1.), g)),
            1 => o.extend(slab(0., 0.5)),
            2 => { o.extend(slab(-0.5, 0.5)); o.extend(slab(0.4, 0.3)); }
            3 => {
                let (a, b, e, w) = ([-1., -3., -0.6], [1., -3., -0.6], [0., -3., 1.], [0., 6., 0.]);
                o.extend(quad(a, w, sub(b, a), g));
                o.extend(quad(b, w, sub(e, b), g));
                o.extend(quad(e, w, sub(a, e), g));
            }
            _ => { o.push((Geo::Ball([0.1, -0.2, 0.3], 0.8), g)); o.extend(quad([-3., -3., -1.5], [6., 0., 0.], [0., 6., 0.], Stuff::Made(Mat::Mirror([0.9, 0.7, 0.5])))); }
        }
        let w = checks::scatter::fib(view, views);
        let from = mad(mul(w, 3.), [0.31, -0.17, 0.23], 1.);
        let to = [0.13, 0.07 + 0.1 * (view % 5) as f64, 0.11];
        let what = || format!("form {} of glass with shares {} and {}, index {}, walls {}, seen from {:?} towards {:?}", form, kr, kt, eta, if col == 0 { "equal" } else { "different" }, from, to);
        let lobes = if kr > 0. && kt > 0. { 2 } else { 1 };
        specular(&o, from, sub(to, from), depth, &plan, lobes, &|_| if lobes == 2 { rr2 } else { &[128, 16, 8] }, 0.025, side, &what, cx);
    });

    // paths that meet nothing, and emitters seen directly
    c.family("direct view", "an emitter seen from the front or back, at several angles, itself black or matte and lit by a second emitter, or missed: its own radiance exactly once; non-trivial: light arrives", 5 * 2 * 2 * 2, |i, cx| {
        let mut d = Digits(i);
        let (ang, front, matte, second) = (d.take(5) as f64 * 0.3, d.take(2) == 0, d.take(2) == 1, d.take(2) == 1);
        let l = [0.3, 0.15, 0.05];
        let v = [[-1., -1., 0.], [1., -1., 0.], [0., 1.5, 0.]];
        let mut b = Builder::new();
        let m: Arc<dyn Material> = if matte { Mat::Matte([0.6; 3]).make() } else { Arc::new(NoMaterial) };
        b.add_area_light(AreaLight::new(Spectrum::new(0.3, 0.15, 0.05), Triangle::new(v.map(p3), None, false, m)));
        if second { b.add_light(DistantLight::new(Spectrum::new(0.5, 0.5, 0.5), Vector3f::new(0., 0.6, if front { 0.8 } else { -0.8 }))); }
        let dir = [ang.sin(), 0.1, if front { -ang.cos() } else { ang.cos() }];
        let from = if ang > 1.1 { [9., 9., 9.] } else { mul(dir, -2.) };
        let seen = ang <= 1.1;
        let mut want = if front && seen { l } else { [0.; 3] };
        if seen && matte && second { want = add(want, [0.6 / std::f64::consts::PI * 0.5 * 0.8; 3]); }
        let what = || format!("emitter (matte {}, second light {}) seen along {:?} from {:?}", matte, second, dir, from);
        match mean(b.construct(|s| KdTree::new(s, None)), &ray(from, dir), &[2, 4, 4, 4, 4, 4, 4], side) {
            Err(m) => cx.fail(format!("{}: {}", what(), m)),
            Ok((got, _)) => {
                cx.evals(side as u64 * side as u64 * 2048 * 4);
                cx.nontrivials((want != [0.; 3]) as u64);
                if (0..3).any(|a| if want[a] == 0. { got[a] != 0. } else { (got[a] - want[a]).abs() > 0.01 * want[a] + 0.002 }) { cx.fail(format!("{}: {:?}, expected {:?}", what(), got, want)); return; }
                cx.sample(|| format!("{}: {:?}", what(), got));
            }
        }
    });

    // a surface that both scatters and mirrors
    let plas = [(0.4f32, 0.3f32), (0.05, 0.9), (0.8, 0.1), (0., 0.6), (0.6, 0.)];
    let pl_lights: Vec<[P; 3]> = vec![
        // in the mirror direction of the first view, beside it, and large
        [[0.9, -0.5, 0.9], [0.9, 0.9, 0.9], [0.5, 0.1, 1.4]],
        [[-1.1, -0.6, 0.8], [-0.4, 0.7, 1.2], [-1.2, 0.6, 1.1]],
        [[-6., -6., 1.5], [-6., 18., 1.5], [18., -6., 1.5]],
    ];
    let pl_views: Vec<P> = vec![[-0.8, -0.1, 1.], [-0.1, 0.2, 1.], [-2., 0.4, 1.], [0.9, 0.3, 0.5]];
    c.family("mirroring and matte", "a small receiver of a smooth plastic (matte and mirroring shares of 5 kinds, also one of the two alone) under one emitter or two, in the mirror direction of the view or not, and so large that it is met by every scattered ray or small: what is scattered diffusely and what is mirrored, each once; all choices on a complete grid shared by the requests; non-trivial: light arrives", (plas.len() * pl_lights.len() * 2 * pl_views.len()) as u64, |i, cx| {
        let mut d = Digits(i);
        let ((kd, ks), lv, two, wo) = (*d.of(&plas), *d.of(&pl_lights), d.take(2) == 1, norm(*d.of(&pl_views)));
        let face = |lv: [P; 3]| if dot(cross(sub(lv[1], lv[0]), sub(lv[2], lv[0])), lv[0]) < 0. { lv } else { [lv[0], lv[2], lv[1]] };
        let mut lamps = vec![face(lv)];
        if two { lamps.push(face([[0.2, -1.6, 0.5], [0.4, -1.2, 1.5], [-0.5, -1.3, 0.9]])); }
        let m = Mat::Plastic(kd, ks, 0.);
        let rv = [[-0.02, -0.02, 0.], [0.02, -0.02, 0.], [0., 0.03, 0.]];
        let floor = || Triangle::new(rv.map(p3), None, false, m.make());
        let view = ray(mul(wo, 0.3), mul(wo, -1.));
        let what = || format!("receiver of {:?} seen along {:?} under {:?}", m, wo, lamps);
        let (fb, p, n, fwo) = { use pt::shape::Shape; match floor().intersect(&view) { Some((mut h, _)) => { h.shape = Some(Arc::new(floor())); (h.compute_scattering(), ap(h.p), an(h.sn), h.wo) } None => { cx.fail("the receiver is not seen"); return; } } };
        // the mirrored share: its lobe is met by half the numbers, or by all
        let (mut share, mut dir) = ([0f64; 3], [0.; 3]);
        for k in 0..64 {
            let (w, f, pdf, flag) = fb.sample_f(fwo, Point2f::new((k as f32 + 0.5) / 64., 0.37));
            if pdf > 0. && flag & pt::reflection::SPECULAR != 0 { dir = a3(w); share = add(share, mul(asp(f), dot(dir, n).abs() / pdf as f64 / 64.)); }
        }
        let (mut seen, mut edge) = (false, false);
        let mut want = [0f64; 3];
        let q = 160;
        for (k, lv) in lamps.iter().enumerate() {
            if dir != [0.; 3] { if let Some(h) = hit(&Geo::Tri(*lv), p, dir) { if h.2 < 0.02 { edge = true; } else if dot(h.1, dir) < 0. { seen = true; if !(two && k == 1 && hit(&Geo::Tri(lamps[0]), p, dir).is_some()) { want = add(want, share); } } } }
            let lg = cross(sub(lv[1], lv[0]), sub(lv[2], lv[0]));
            let (area, ln) = (len(lg) / 2., norm(lg));
            for a in 0..q { for b in 0..q {
                let (x, y) = (((a as f64 + 0.5) / q as f64).sqrt(), (b as f64 + 0.5) / q as f64);
                let e = sub(add(add(mul(lv[0], 1. - x), mul(lv[1], x * (1. - y))), mul(lv[2], x * y)), p);
                let w = norm(e);
                let cl = -dot(w, ln);
                if cl <= 0. || w[2] <= 0. || (k == 1 && hit(&Geo::Tri(lamps[0]), p, w).map_or(false, |h| h.2 > 0. && h.0 < len(e) - 1e-3)) { continue; }
                want = add(want, mul(asp(fb.f(fwo, v3(w))), dot(w, n).abs() * cl / dot(e, e) * area / (q * q) as f64));
            } }
        }
        if edge { cx.count("next to an edge", 1); return; }
        cx.count("mirrored emitter", seen as u64);
        // the second lamp may hide part of a large first one
        let hidden = two && lamps[1].iter().all(|v| v[2] < 1.5) && lv == pl_lights[2];
        if hidden { cx.count("one emitter before the other", 1); return; }
        let top = want.iter().cloned().fold(0., f64::max);
        let scale = if top > 1e-4 { ((0.3 / top) as f32) as f64 } else { 1. };
        let mut b = Builder::new();
        b.add_shape(floor());
        for lv in &lamps { b.add_area_light(AreaLight::new(Spectrum::from(scale as f32), Triangle::new(lv.map(p3), None, false, Arc::new(NoMaterial)))); }
        let strata = [lamps.len() as u32, 64, 64];
        let digit: Vec<usize> = plan.iter().take(7).scan(0, |s, ch| { *s += 1; Some(if *ch == 'L' { 0 } else { 1 + *s % 2 }) }).collect();
        match shared(b.construct(|s| KdTree::new(s, None)), &view, &digit, &strata, side) {
            Err(m) => cx.fail(format!("{}: {}", what(), m)),
            Ok((got, _)) => {
                cx.evals(16 * strata.iter().product::<u32>() as u64);
                cx.nontrivials((top > 0.) as u64);
                let want = mul(want, scale);
                if (0..3).any(|a| if want[a] == 0. { got[a] != 0. } else { (got[a] - want[a]).abs() > 0.02 * want[a] + 0.004 }) { cx.fail(format!("{}: the mean over all samples is {:?}, what is scattered and mirrored gives {:?}", what(), got, want)); return; }
                cx.sample(|| format!("{}: {:?}, expected {:?}", what(), got, want));
            }
        }
    });

    // light that arrives by way of one more surface
    let recv = [(Mat::Matte([0.9, 0.6, 0.3]), false), (Mat::Matte([0.9, 0.6, 0.3]), true), (Mat::Plastic(0.4, 0.5, 0.4), false), (Mat::Metal(1., [0.2, 0.92, 1.1], [3.9, 2.45, 2.14], 0.4, 0.4), false)];
    let walls = [(Mat::Matte([0.8, 0.5, 0.9]), false), (Mat::Plastic(0.5, 0.4, 0.5), false), (Mat::Mirror([0.9, 0.6, 0.3]), false), (Mat::Metal(1., [0.2, 0.92, 1.1], [3.9, 2.45, 2.14], 0., 0.), false), (Mat::Matte([0.; 3]), false), (Mat::Matte([0.8, 0.5, 0.9]), true)];
    let g = c.pick(5u32, 7);
    let q = c.pick(48usize, 96);
    let lights: Vec<[P; 3]> = vec![
        // facing the wall at x = 2 and away from the receiver at the origin
        [[0.6, -0.5, 0.6], [0.5, 0.6, 0.5], [0.7, 0.1, 1.5]],
        [[0.4, -0.3, 1.2], [0.6, 0.2, 2.2], [0.4, 0.7, 1.1]],
        // facing both
        [[0.3, -0.6, 2.2], [0.2, 0.7, 2.0], [1.2, 0.1, 2.4]],
    ];
    let wo: Vec<P> = vec![[-0.6, 0.2, 0.5], [0.1, -0.9, 0.7]];
    c.family("one more surface", "a small receiver of 3 materials (the matte one also with a leaning shading normal) lit by an emitter by way of a matte, glossy, mirroring, metal or black wall (matte also with a tilted shading normal), the emitter facing the wall alone or both, seen directly or in two mirrors (not glossy receivers of mirrored light): all choices on a complete grid (next direction, light point and scattering direction of the second bounce), against the nested integral; non-trivial: light arrives", (recv.len() * walls.len() * lights.len() * wo.len() * 2) as u64, |i, cx| {
        let mut d = Digits(i);
        let ((rm, leaning), (wm, tilted), lv, wo, by) = (*d.of(&recv), *d.of(&walls), *d.of(&lights), norm(*d.of(&wo)), [0, 2][d.take(2)]);
        let smooth = match wm { Mat::Mirror(k) => Some(k.map(|x| x as f64)), _ => None };
        let is_metal = matches!(wm, Mat::Metal(..));
        // a peaked receiver and a survival decision together ask for too fine a grid
        if by == 2 && (smooth.is_some() || is_metal) && !matches!(rm, Mat::Matte(..)) { return; }
        let rn = if leaning { Some([n3(norm([0.4, 0.05, 1.])); 3]) } else { None };
        let lv = { let n = cross(sub(lv[1], lv[0]), sub(lv[2], lv[0])); let m = mul(add(add(lv[0], lv[1]), lv[2]), 1. / 3.); if dot(n, sub([2., m[1], m[2]], m)) > 0. { lv } else { [lv[0], lv[2], lv[1]] } };
        // the third emitter faces down: towards receiver and wall
        let lv = if i / (recv.len() * walls.len()) as u64 % 3 == 2 && cross(sub(lv[1], lv[0]), sub(lv[2], lv[0]))[2] > 0. { [lv[0], lv[2], lv[1]] } else { lv };
        let wv = [[2., -4., -3.], [2., 0., 7.], [2., 4., -3.]];
        let rv = [[-0.02, -0.02, 0.], [0.02, -0.02, 0.], [0., 0.03, 0.]];
        let floor = || Triangle::new(rv.map(p3), rn, false, rm.make());
        let facing = norm(cross(sub(wv[1], wv[0]), sub(wv[2], wv[0])))[0];
        let wall = || Triangle::new(wv.map(p3), if tilted { Some([n3(norm([facing, 0.5, 0.35])); 3]) } else { None }, false, wm.make());
        // the view, directly or by way of a mirror halfway up
        let from = mul(wo, 0.3);
        let mr = mul(wo, 0.15);
        let mr2 = add(mr, [0., 0., -0.1]);
        let view = if by == 0 { ray(from, mul(wo, -1.)) } else { ray(add(mr2, [0., -0.1, 0.]), [0., 1., 0.]) };
        let shade = |s: &Triangle, r: &Ray, m: &Mat| { use pt::shape::Shape; s.intersect(r).map(|(mut h, _)| { h.shape = Some(Arc::new(Triangle::new(rv.map(p3), None, false, m.make()))); (h.compute_scattering(), ap(h.p), an(h.sn), h.wo) }) };
        let (fb, p, fnn, fwo) = match shade(&floor(), &ray(from, mul(wo, -1.)), &rm) { Some(x) => x, None => { cx.fail("the receiver is not seen"); return; } };
        let lg = cross(sub(lv[1], lv[0]), sub(lv[2], lv[0]));
        let (larea, ln) = (len(lg) / 2., norm(lg));
        let at = |v: &[P; 3], a: usize, b: usize| { let (x, y) = (((a as f64 + 0.5) / q as f64).sqrt(), (b as f64 + 0.5) / q as f64); add(add(mul(v[0], 1. - x), mul(v[1], x * (1. - y))), mul(v[2], x * y)) };
        let blocked = |a: P, b: P| { let d = sub(b, a); hit(&Geo::Tri(lv), a, norm(d)).map_or(false, |h| h.0 < len(d) - 1e-3 && h.2 > 0.) };
        let mut want = [0f64; 3];
        // straight from the emitter
        for a in 0..q { for b in 0..q {
            let d = sub(at(&lv, a, b), p);
            let w = norm(d);
            let cl = -dot(w, ln);
            if cl <= 0. || w[2] <= 0. { continue; }
            want = add(want, mul(asp(fb.f(fwo, v3(w))), dot(w, fnn).abs() * cl / dot(d, d) * larea / (q * q) as f64));
        } }
        if smooth.is_some() || is_metal {
            // the emitter's mirror image behind x = 2
            for a in 0..q { for b in 0..q {
                let y = at(&lv, a, b);
                let im = [4. - y[0], y[1], y[2]];
                let d = sub(im, p);
                let w = norm(d);
                let cl = -dot(w, [-ln[0], ln[1], ln[2]]);
                let onwall = mad(p, d, (2. - p[0]) / d[0]);
                let inside = hit(&Geo::Tri(wv), p, w).map_or(false, |h| h.2 > 0.);
                if cl <= 0. || w[2] <= 0. || !inside || blocked(p, onwall) { continue; }
                let r = match wm { Mat::Metal(r, e, k, ..) => [0, 1, 2].map(|a| r as f64 * fresnel_metal(w[0], e[a] as f64, k[a] as f64)), _ => smooth.unwrap() };
                want = add(want, mul(had(r, asp(fb.f(fwo, v3(w)))), dot(w, fnn).abs() * cl / dot(d, d) * larea / (q * q) as f64));
            } }
        } else if wm != Mat::Matte([0.; 3]) {
            let wg = cross(sub(wv[1], wv[0]), sub(wv[2], wv[0]));
            let warea = len(wg) / 2.;
            for a in 0..q { for b in 0..q {
                let y = at(&wv, a, b);
                let d = sub(y, p);
                let w = norm(d);
                if w[2] <= 0. || blocked(p, y) { continue; }
                let (wb, yp, yn, ywo) = match shade(&wall(), &ray(p, d), &wm) { Some(x) => x, None => continue };
                let mut lw = [0f64; 3];
                let ql = 16;
                for e in 0..ql { for h in 0..ql {
                    let (x, yy) = (((e as f64 + 0.5) / ql as f64).sqrt(), (h as f64 + 0.5) / ql as f64);
                    let z = add(add(mul(lv[0], 1. - x), mul(lv[1], x * (1. - yy))), mul(lv[2], x * yy));
                    let t = sub(z, yp);
                    let u = norm(t);
                    let cl = -dot(u, ln);
                    if cl <= 0. || u[0] >= 0. { continue; }
                    lw = add(lw, mul(asp(wb.f(ywo, v3(u))), dot(u, yn).abs() * cl / dot(t, t) * larea / (ql * ql) as f64));
                } }
                want = add(want, mul(had(lw, asp(fb.f(fwo, v3(w)))), dot(w, fnn).abs() * w[0] / dot(d, d) * warea / (q * q) as f64));
            } }
        }
        if by == 2 { want = had(want, [0.72, 0.45, 0.56]); }
        let top = want.iter().cloned().fold(0., f64::max);
        let scale = if top > 1e-4 { ((0.3 / top) as f32) as f64 } else { 1. };
        let mut bld = Builder::new();
        bld.add_shape(floor());
        bld.add_shape(wall());
        if by == 2 {
            // turn the ray going along y at mr2 up to mr, and there towards the origin
            for (at, i, o, k) in [(mr2, [0., 1., 0.], [0., 0., 1.], [0.8, 0.9, 0.7]), (mr, [0., 0., 1.], mul(wo, -1.), [0.9, 0.5, 0.8])] {
                let n = norm(sub(o, i));
                let (e1, e2) = { let a = norm(cross(n, [0.3, 1., 0.2])); (a, cross(n, a)) };
                let s = 0.004;
                bld.add_shape(Triangle::new([mad(at, e1, -s), mad(mad(at, e1, s), e2, -s), mad(mad(at, e1, s), e2, 1.5 * s)].map(p3), None, false, Mat::Mirror(k.map(|x: f64| x as f32)).make()));
            }
        }
        bld.add_area_light(AreaLight::new(Spectrum::from(scale as f32), Triangle::new(lv.map(p3), None, false, Arc::new(NoMaterial))));
        let glossy = smooth.is_some() || is_metal;
        // the first bounce's light point and scattering direction only add to the
        // result, so they may share the digits of the second bounce's
        let mut strata: Vec<u32> = if glossy { vec![1, if by == 2 { 12 * g } else { 20 * g }, if by == 2 { 12 * g } else { 20 * g }] } else { vec![1, 2 * g, 2 * g, 4, 4, 3, 3] };
        let (mut digit, mut bounce, mut last) = (vec![], 0, 'N');
        let mut seen = 0;
        for ch in &plan {
            // what is met behind a matte or glossy wall adds nothing, so that there the decision does not matter
            if *ch == 'R' { if glossy { digit.push(strata.len()); strata.push(16); } else { digit.push(0); } last = *ch; continue; }
            if *ch == 'L' && !digit.is_empty() { bounce += 1; }
            if bounce >= by + 2 { break; }
            seen = if *ch == last { seen + 1 } else { 0 };
            last = *ch;
            // a mirror before the receiver takes no choices
            let first = bounce == by;
            digit.push(if bounce < by || *ch == 'L' { 0 } else if glossy { 1 + seen % 2 } else { (match (ch, first) { ('A', _) => 3, ('B', _) => 5, ('N', true) => 1, _ => { digit.push(0); continue; } }) + seen % 2 });
        }
        let what = || format!("receiver of {:?}{} seen along {:?} ({}), wall of {:?}{}, emitter {:?}", rm, if leaning { " (leaning)" } else { "" }, wo, if by == 2 { "in two mirrors" } else { "directly" }, wm, if tilted { " (tilted)" } else { "" }, lv);
        match shared(bld.construct(|s| KdTree::new(s, None)), &view, &digit, &strata, side) {
            Err(m) => cx.fail(format!("{}: {}", what(), m)),
            Ok((got, _)) => {
                cx.evals(16 * strata.iter().product::<u32>() as u64);
                cx.nontrivials((top > 0.) as u64);
                let want = mul(want, scale);
                if (0..3).any(|a| if want[a] == 0. { got[a] != 0. } else { (got[a] - want[a]).abs() > 0.025 * want[a] + 0.004 }) { cx.fail(format!("{}: the mean over all samples is {:?}, the light that arrives gives {:?}", what(), got, want)); return; }
                cx.sample(|| format!("{}: {:?}, expected {:?}", what(), got, want));
            }
        }
    });

    // a furnace: luminous matte walls
    c.family("furnace", "a closed room whose walls emit and reflect diffusely with albedos from 0 to 0.45, seen at several points: radiance / (1 - albedo), all bounces up to the seventh on one grid shared by them; non-trivial: light arrives", 6 * 4 * 2, |i, cx| {
        let mut d = Digits(i);
        let (alb, view, big) = ([0f32, 0.1, 0.2, 0.3, 0.4, 0.45][d.take(6)], d.take(4), d.take(2) == 1);
        let e = 0.4 * (1. - alb as f64);
        let r = if big { 50. } else { 1. };
        let mut b = Builder::new();
        for (g, _) in room(r, &white([1.; 3])) { if let Geo::Tri(v) = g { b.add_area_light(AreaLight::new(Spectrum::from(e as f32), Triangle::new(v.map(p3), None, false, Mat::Matte([alb; 3]).make()))); } }
        let dir = checks::scatter::fib(view * 2 + 1, 9);
        // digits: light choice, light point, scattering, next direction, the first two termination decisions
        let (mut digit, strata) = (vec![], [12, 2, 2, 2, 2, 1, 1, 16, 4u32]);
        let (mut seen, mut nr) = ([0; 128], 0);
        for c in plan.iter().take(52) { digit.push(match c { 'L' => 0, 'R' => { nr += 1; if nr == 1 { 7 } else if nr == 2 { 8 } else { 5 } }, x => { let s = &mut seen[*x as usize]; *s += 1; (match x { 'A' => 1, 'B' => 3, _ => 5 }) + (*s + 1) % 2 } }); }
        let what = || format!("room of half width {} with walls of albedo {}, radiance {}, seen along {:?}", r, alb, e, dir);
        match shared(b.construct(|s| KdTree::new(s, None)), &ray(mul([0.1, 0.2, -0.3], r), dir), &digit, &strata, side) {
            Err(m) => cx.fail(format!("{}: {}", what(), m)),
            Ok((got, _)) => {
                cx.evals(16 * strata.iter().product::<u32>() as u64);
                cx.nontrivials(1);
                if (0..3).any(|a| (got[a] - 0.4).abs() > 0.004 + 0.02 * alb as f64) { cx.fail(format!("{}: {:?}, expected 0.4", what(), got)); return; }
                cx.sample(|| format!("{}: {:?}", what(), got));
            }
        }
    });
    c.finish();
}
