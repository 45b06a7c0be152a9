//! C17: shadow tests see exactly the blockers between a point and the light.
use checks::*;
use mc::num::*;
use mc::{Check, Cx, Digits, Level};
use pt::api::*;
use pt::container::Container;
use pt::container_simple::Simple;
use pt::interaction::Interaction;
use pt::ray::Ray;
use pt::scene::Scene;
use pt::shape::Shape;
use std::sync::Arc;

const INF: f32 = f32::INFINITY;
type P = [f64; 3];
fn mad(o: P, d: P, t: f64) -> P { add(o, mul(d, t)) }

#[derive(Clone, Debug)]
enum Thing { Tri([P; 3]), Ball(P, f64) }
impl Thing {
    fn tri(&self) -> Triangle { match self { Thing::Tri(v) => Triangle::new(v.map(p3), None, false, Arc::new(NoMaterial)), _ => unreachable!() } }
    fn add(&self, b: &mut Builder) { match self { Thing::Tri(_) => b.add_shape(self.tri()), Thing::Ball(c, r) => b.add_shape(Sphere::new(p3(*c), *r as f32, Arc::new(NoMaterial))) } }
    fn hit(&self, r: &Ray) -> Option<Interaction> { match self { Thing::Tri(_) => self.tri().intersect(r), Thing::Ball(c, q) => Sphere::new(p3(*c), *q as f32, Arc::new(NoMaterial)).intersect(r) }.map(|h| h.0) }
    /// Does the segment a + t d, lo < t < hi cross this?  None: too close to call.
    fn crosses(&self, a: P, d: P, lo: f64, hi: f64) -> Option<bool> {
        let g = 5e-5;
        let at = |t: f64| if t > lo + g && t < hi - g { Some(true) } else if t < lo - g || t > hi + g { Some(false) } else { None };
        match self {
            Thing::Tri(v) => {
                let v = v.map(|p| ap(p3(p)));
                let n = cross(sub(v[1], v[0]), sub(v[2], v[0]));
                let den = dot(n, d);
                if den.abs() < 1e-4 * len(n) * len(d) { return None; }
                let t = dot(n, sub(v[0], a)) / den;
                let p = mad(a, d, t);
                let m = (0..3).map(|k| dot(cross(sub(v[(k + 1) % 3], v[k]), sub(p, v[k])), n) / dot(n, n)).fold(1f64, f64::min);
                if m < -1e-3 { return Some(false); }
                if m < 1e-3 { return match at(t) { Some(false) => Some(false), _ => None }; }
                at(t)
            }
            Thing::Ball(c, r) => {
                let l = sub(a, ap(p3(*c)));
                let (qa, qb, qc) = (dot(d, d), dot(d, l), dot(l, l) - r * r);
                let disc = qb * qb - qa * qc;
                if disc < -1e-4 * qa * r * r { return Some(false); }
                if disc < 1e-4 * qa * r * r { return match at(-qb / qa) { Some(false) => Some(false), _ => None }; }
                let s = disc.sqrt();
                let x = [at((-qb - s) / qa), at((-qb + s) / qa)];
                if x.contains(&Some(true)) { Some(true) } else if x.contains(&None) { None } else { Some(false) }
            }
        }
    }
}

/// One shadow test.
fn shadow(scene_kind: usize, things: &[Thing], light: &Thing, l: Spectrum, h: &Interaction, own: Option<&Thing>, u: pt::vector::Point2f, what: &dyn Fn() -> String, cx: &mut Cx) {
    let mut b = Builder::new();
    for t in things { t.add(&mut b); }
    b.add_area_light(AreaLight::new(l, light.tri()));
    fn ask<C: Container>(s: &Scene<C>, h: &Interaction, u: pt::vector::Point2f) -> (bool, P) {
        let (wi, _, _, vis) = s.lights()[0].sample_li(h, u);
        (vis.unoccluded(s), a3(wi))
    }
    let (open, wi) = match scene_kind {
        0 => ask(&b.construct(Brute), h, u),
        1 => ask(&b.construct(|s| KdTree::new(s, None)), h, u),
        _ => ask(&b.construct(Simple::new), h, u),
    };
    let p = ap(h.p);
    let q = ap(light.tri().sample(u).p);
    let d = sub(q, p);
    cx.evals(1);
    if !close(wi, norm(d), 1e-5) { cx.fail(format!("{}: the light at {:?} is reported in direction {:?}", what(), q, wi)); return; }
    let mut want = Some(false);
    for t in things {
        // the surface left does not shadow itself where it is left
        let lo = if own.map_or(false, |o| std::ptr::eq(o, t)) { 1e-3 } else { 0. };
        match t.crosses(p, d, lo, 0.9999) {
            Some(true) => { want = Some(true); break; }
            Some(false) => (),
            None => if lo == 0. { want = None },
        }
    }
    if let Some(w) = want {
        cx.nontrivials(w as u64);
        if w == open { cx.fail(format!("{}: from {:?} to the light's point {:?}: reported {}, it is {}", what(), p, q, if open { "open" } else { "blocked" }, if w { "blocked" } else { "open" })); }
    }
}

fn main() {
    let mut c = Check::new("C17", Level::Exploration);
    let places: [(P, f64); 4] = [([0., 0., 0.], 1.), ([50., -20., 10.], 1.), ([0.1, -0.3, 0.2], 0.02), ([-300., 100., 700.], 90.)];
    // where the light is, seen from the receiver
    let lights: Vec<P> = { let mut v = vec![]; for x in [-2., 0., 1.5] { for y in [-1.5, 0.25, 2.] { for z in [-3., -0.5, 0.75, 2.] { v.push([x, y, z]); } } } v };
    // blockers: position along the segment, offset aside, shape
    let fr = [0.001, 0.02, 0.3, 0.7, 0.98, 0.999, 1.001, 1.05, 1.6, -0.001, -0.1, -0.7];
    let side = [0., 1.6];
    let nb = 1 + fr.len() * side.len() * 3;
    let blocker = |code: usize, p: P, q: P| -> Option<Thing> {
        if code == 0 { return None; }
        let mut d = Digits(code as u64 - 1);
        let (f, s, kind) = (*d.of(&fr), *d.of(&side), d.take(3));
        let (v, dist) = (sub(q, p), len(sub(q, p)));
        let w = norm(v);
        let u = norm(cross(w, if w[0].abs() < 0.6 { [1., 0., 0.] } else { [0., 1., 0.] }));
        let t = cross(w, u);
        let size = if kind == 2 { 2e-4 * dist } else { 0.15 * dist };
        let at = mad(mad(p, v, f), u, s * size);
        Some(match kind {
            0 => Thing::Tri([mad(mad(at, u, size), t, 0.1 * size), mad(mad(at, u, -0.6 * size), t, 0.9 * size), mad(mad(at, u, -0.5 * size), t, -0.8 * size)]),
            1 => { // tilted and wound the other way
                let tu = add(mul(u, 0.8), mul(w, 1e-4));
                Thing::Tri([mad(mad(at, tu, size), t, 0.1 * size), mad(mad(at, tu, -0.5 * size), t, -0.8 * size), mad(mad(at, tu, -0.6 * size), t, 0.9 * size)])
            }
            _ => Thing::Ball(at, size),
        })
    };
    let mut us: Vec<(f32, f32)> = vec![(0.3, 0.4), (0.9, 0.05), (0.05, 0.5)];
    for a in 0..4 { for b in 0..3 { us.push((a as f32 / 4. + 0.11, b as f32 / 3. + 0.17)); } }
    let two = c.pick(1usize, nb);
    let kinds = 3;
    c.family("area light", "receivers on a triangle and on a sphere (hit from outside, at several points) at 4 places and sizes, a light triangle at 36 positions around, 15 of its points; up to two blockers (triangles of both windings, small spheres) at 12 positions along the line (before, shortly after, between, shortly before and after the light) on and beside it (thorough: every pair of blockers; quick: every blocker and every 7th pair), plain list, library list and k-d tree; answers that rounding could change are skipped; non-trivial: blocked", (places.len() * lights.len() * 4 * nb * kinds) as u64 * 2, |i, cx| {
        let mut d = Digits(i);
        let ((at, scale), lp, recv, b1, kind, pair) = (*d.of(&places), *d.of(&lights), d.take(4), d.take(nb), d.take(kinds), d.take(2));
        // the receiver
        let own = if recv < 2 {
            Thing::Tri([[-3., -2., 0.1], [3., -2.2, -0.1], [0.2, 4., 0.]].map(|v| mad(at, v, scale)))
        } else { Thing::Ball(mad(at, [0., 0., -1.], scale), scale) };
        let from = mad(at, [[0., 0., 2.], [0.4, -0.3, -2.], [0.2, 0.1, 2.], [0.05, 0.7, 1.5]][recv], scale);
        let ray = Ray { origin: p3(from), direction: v3(sub(mad(at, [0.07, 0.03, 0.], scale), from)), t_max: INF };
        let h = match own.hit(&ray) { Some(h) => h, None => { cx.fail("the receiver is not hit"); return; } };
        let p = ap(h.p);
        let lc = mad(at, lp, scale);
        let light = Thing::Tri([[0.3, 0.1, 0.05], [-0.2, 0.25, -0.1], [-0.05, -0.3, 0.15]].map(|v| mad(lc, v, scale)));
        for (k, u) in us.iter().enumerate() {
            let u = pt::vector::Point2f::new(u.0, u.1);
            let q = ap(light.tri().sample(u).p);
            let mut second: Vec<usize> = if pair == 0 { vec![0] } else if two > 1 { (1..two).collect() } else { (1..nb).filter(|x| (x + b1 + k) % 7 == 0).collect() };
            if b1 == 0 && pair == 1 { second.clear(); }
            for b2 in second {
                let mut things = vec![own.clone()];
                things.extend(blocker(b1, p, q));
                things.extend(blocker(b2, p, q));
                shadow(kind, &things, &light, Spectrum::from(2.), &h, Some(&things[0]), u, &|| format!("surface and blockers {:?}, light {:?}", things, light), cx);
                if cx.failed() { return; }
            }
        }
        cx.sample(|| format!("receiver {:?}, light at {:?}, blocker {}", p, lc, b1));
    });
    // distant lights: blockers anywhere in the scene along the direction
    let dirs: Vec<P> = { let mut v = vec![]; for x in [-1., 0., 0.5] { for y in [-1., 0., 2.] { for z in [-1., 0., 3.] { if (x, y, z) != (0., 0., 0.) { v.push([x, y, z]); } } } } v };
    let fars = [0.001, 0.01, 0.5, 1., 3., 20., 300., -0.01, -1., -20.];
    c.family("distant light", "a distant light from 26 directions of different lengths, receiver at 4 places and sizes, one blocker from very near to 300 times the receiver's size away, on the line to the light, beside it or opposite to it, other geometry elsewhere or not, the blocker a shape or an area light; direction, radiance, density as given for every receiver; non-trivial: blocked", (dirs.len() * places.len() * fars.len() * 2 * 3 * 3) as u64, |i, cx| {
        let mut d = Digits(i);
        let (w, (at, scale), f, s, kind, more) = (*d.of(&dirs), *d.of(&places), *d.of(&fars), *d.of(&side), d.take(3), d.take(3));
        let wn = norm(w);
        let u = norm(cross(wn, if wn[0].abs() < 0.6 { [1., 0., 0.] } else { [0., 1., 0.] }));
        let t = cross(wn, u);
        // the receiver faces the light or not
        let own = Thing::Tri([[-3., -2., 0.1], [3., -2.2, -0.1], [0.2, 4., 0.]].map(|v| mad(at, v, scale)));
        let from = mad(at, [0.1, 0.2, 2.], scale);
        let ray = Ray { origin: p3(from), direction: v3(sub(mad(at, [0.07, 0.03, 0.], scale), from)), t_max: INF };
        let h = match own.hit(&ray) { Some(h) => h, None => { cx.fail("the receiver is not hit"); return; } };
        let p = ap(h.p);
        let dist = f * scale;
        let size = if f.abs() > 0.2 { 0.1 * dist.abs() } else { 0.3 * dist.abs() };
        let bc = mad(mad(p, wn, dist), u, s * size);
        let block = if kind == 2 { Thing::Ball(bc, size * 0.5) } else { Thing::Tri([mad(mad(bc, u, size), t, 0.1 * size), mad(mad(bc, u, -0.6 * size), t, 0.9 * size), mad(mad(bc, u, -0.5 * size), t, -0.8 * size)]) };
        let l = Spectrum::new(1.5, 0.25, 3.);
        let mut b = Builder::new();
        if kind == 1 { b.add_light(DistantLight::new(l, v3(w))); }
        own.add(&mut b);
        match block { Thing::Tri(_) if more == 2 => b.add_area_light(AreaLight::new(l, block.tri())), _ => block.add(&mut b) }
        let extra = Thing::Tri([[4., 4., 5.], [4.5, 4., 5.], [4., 4.5, 5.]].map(|v| mad(at, v, scale)));
        if more == 1 { b.add_area_light(AreaLight::new(l, extra.tri())); }
        if kind != 1 { b.add_light(DistantLight::new(l, v3(w))); }
        let sc = b.construct(|s| KdTree::new(s, None));
        let what = || format!("receiver {:?}, blocker {:?}, distant light in direction {:?}", own, block, w);
        // the far end is outside of everything
        let far = 1e5 * (scale + dist.abs());
        let lt = match sc.lights().iter().find(|l| l.is_delta()) { Some(l) => l, None => { cx.fail("no distant light in the scene"); return; } };
        for uu in [(0., 0.), (0.7, 0.2)] {
            let (wi, li, pdf, vis) = lt.sample_li(&h, pt::vector::Point2f::new(uu.0, uu.1));
            cx.evals(1);
            if !close(a3(wi), wn, 1e-6) || asp(li) != asp(l) || pdf != 1. || lt.pdf_li(&h, wi) != 0. {
                cx.fail(format!("{}: reported direction {:?}, radiance {:?}, density {} and {} for the given direction", what(), wi, li, pdf, lt.pdf_li(&h, wi)));
                return;
            }
            let mut want = Some(false);
            for (k, o) in [&own, &block, &extra].iter().enumerate() {
                if k == 2 && more != 1 { continue; }
                match o.crosses(p, mul(wn, scale), if k == 0 { 1e-3 } else { 0. }, far / scale) {
                    Some(true) => { want = Some(true); break; }
                    None if k > 0 => want = None,
                    _ => (),
                }
            }
            if let Some(w) = want {
                cx.nontrivials(w as u64);
                if w == vis.unoccluded(&sc) { cx.fail(format!("{}: the light is reported {} from {:?}, it is {}", what(), if w { "open" } else { "blocked" }, p, if w { "blocked" } else { "open" })); return; }
            }
        }
        cx.sample(|| what());
    });
    c.finish();
}
