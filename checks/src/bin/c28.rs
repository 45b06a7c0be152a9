//! C28: a built scene contains everything that was added.
use std::sync::{Arc, Mutex};

use checks::*;
use mc::num::*;
use mc::{catch, Check, Cx, Digits, Level};
use pt::bbox::BBox3f;
use pt::camera::{Camera, CameraSample};
use pt::container::Container;
use pt::container_kdtree::KdTree;
use pt::container_simple::Simple;
use pt::film::Film;
use pt::integrator::Integrator;
use pt::interaction::Interaction;
use pt::light::{AreaLight, DistantLight, Light, VisibilityTester};
use pt::material::Material;
use pt::ray::Ray;
use pt::reflection::BSDF;
use pt::scene::{Builder, Scene};
use pt::shape::Shape;
use pt::shape_sphere::Sphere;
use pt::shape_triangle::Triangle;
use pt::spectrum::Spectrum;
use pt::vector::*;

/// A light that remembers what bounds it was told.
struct Told {
    inner: DistantLight,
    told: Arc<Mutex<Vec<BBox3f>>>,
}
impl Light for Told {
    fn is_delta(&self) -> bool { true }
    fn pre_process(&mut self, b: BBox3f) {
        self.told.lock().unwrap().push(b);
        self.inner.pre_process(b);
    }
    fn sample_li(&self, i: &Interaction, s: Point2f) -> (Vector3f, Spectrum, f32, VisibilityTester) { self.inner.sample_li(i, s) }
    fn pdf_li(&self, i: &Interaction, w: Vector3f) -> f32 { self.inner.pdf_li(i, w) }
}

/// A material with an identity of its own.
struct Tag(#[allow(dead_code)] usize);
impl Material for Tag {
    fn compute_scattering(&self, i: &Interaction) -> BSDF { BSDF::new(i) }
}

#[derive(Clone, Copy, PartialEq, Debug)]
enum Kind { Ball, Tri, TriLight, BallLight, Distant, Told }
use Kind::*;
const KINDS: [Kind; 6] = [Ball, Tri, TriLight, BallLight, Distant, Told];
impl Kind {
    fn is_shape(self) -> bool { !matches!(self, Distant | Told) }
    fn is_light(self) -> bool { !matches!(self, Ball | Tri) }
    fn is_area(self) -> bool { matches!(self, TriLight | BallLight) }
}

/// Where the k-th element stands; looked at from above.
const PLACES: [V; 8] = [[0., 0., 0.], [10., 3., -4.], [-7., 8., 2.], [300., -5., 1.], [4., -60., -9.], [-20., -20., 40.], [5., 5., 20.], [-3., 15., -30.]];
/// The colour of the k-th element where it gives light.
fn place(k: usize) -> V { if k < PLACES.len() { PLACES[k] } else { [1000. + 16. * (k % 19) as f64, -500. + 16. * (k / 19) as f64, (k % 7) as f64 - 3.] } }
fn colour(k: usize) -> [f32; 3] { if k >= PLACES.len() { return [0.125 + k as f32 / 1024., 0.9 - k as f32 / 4096., 0.25]; } [0.125 + 0.09 * k as f32, 0.9 - 0.1 * k as f32, 0.5] }
fn toward(k: usize) -> V { norm([1. + k as f64, 2., -3. + k as f64]) }
fn sees(p: V, off: V) -> Ray { Ray { origin: p3(add(add(p, off), [0., 0., 100.])), direction: v3([0., 0., -1.]), t_max: f32::INFINITY } }
fn spec(c: [f32; 3]) -> Spectrum { Spectrum::new(c[0], c[1], c[2]) }

struct Built {
    builder: Builder,
    materials: Vec<Arc<dyn Material>>,
    told: Vec<(usize, Arc<Mutex<Vec<BBox3f>>>)>,
}
fn triangle(p: V, m: Arc<dyn Material>) -> Triangle {
    let v = [[-1.5, -1., 0.], [1.5, -1., 0.], [0., 2., 0.]].map(|o| p3(add(p, o)));
    Triangle::new(v, None, false, m)
}
fn add_all(kinds: &[Kind]) -> Built {
    let mut b = Builder::new();
    let mut materials = vec![];
    let mut told = vec![];
    for (k, kind) in kinds.iter().enumerate() {
        let m: Arc<dyn Material> = Arc::new(Tag(k));
        materials.push(m.clone());
        let (p, l) = (place(k), spec(colour(k)));
        match kind {
            Ball => b.add_shape(Sphere::new(p3(p), 1., m)),
            Tri => b.add_shape(triangle(p, m)),
            TriLight => b.add_area_light(AreaLight::new(l, triangle(p, m))),
            BallLight => b.add_area_light(AreaLight::new(l, Sphere::new(p3(p), 1., m))),
            Distant => b.add_light(DistantLight::new(l, v3(toward(k)))),
            Told => {
                let t = Arc::new(Mutex::new(vec![]));
                told.push((k, t.clone()));
                b.add_light(self::Told { inner: DistantLight::new(l, v3(toward(k))), told: t });
            }
        }
    }
    Built { builder: b, materials, told }
}

fn addr<T: ?Sized>(t: &T) -> usize { t as *const T as *const u8 as usize }

fn inspect<C: Container>(kinds: &[Kind], s: &Scene<C>, materials: &[Arc<dyn Material>], what: &str, cx: &mut Cx) {
    let name = || format!("{:?} in {}", kinds, what);
    let want = kinds.iter().filter(|k| k.is_light()).count();
    if !cx.check(s.lights().len() == want, || format!("{}: {} lights instead of {}", name(), s.lights().len(), want)) { return; }
    // which light is which: an area light is told by its hits, others by their light
    let mut owner: Vec<Option<usize>> = vec![None; want];
    for (k, kind) in kinds.iter().enumerate() {
        let p = place(k);
        for off in [[0., 0., 0.], [0.25, -0.5, 0.], [-0.125, 0.75, 0.]] {
            let r = sees(p, off);
            cx.evals(1);
            let hit = s.intersect(&r);
            cx.check(s.intersect_p(&r) == hit.is_some(), || format!("{}: the any-hit test at element {} says {}, the closest-hit test {}", name(), k, s.intersect_p(&r), hit.is_some()));
            if !kind.is_shape() {
                cx.check(hit.is_none(), || format!("{}: something stands where only light {} was added", name(), k));
                continue;
            }
            let Some(i) = hit else { cx.fail(format!("{}: element {} is missed by a ray straight at it", name(), k)); return };
            let Some(sh) = i.shape.clone() else { cx.fail(format!("{}: a hit on element {} names no shape", name(), k)); return };
            cx.check(addr(&*sh.material()) == addr(&*materials[k]), || format!("{}: a hit on element {} names another shape", name(), k));
            let le = asp(i.le(v3([0., 0., 1.])));
            let c = if kind.is_area() { colour(k).map(|x| x as f64) } else { [0.; 3] };
            cx.check(le == c, || format!("{}: element {} emits {:?} instead of {:?}", name(), k, le, c));
            let same: Vec<usize> = (0..want).filter(|&j| addr(&*s.lights()[j]) == addr(&*sh)).collect();
            if kind.is_area() {
                if !cx.check(same.len() == 1, || format!("{}: the shape of area light {} is {} of the scene's lights", name(), k, same.len())) { return; }
                let before = owner[same[0]].replace(k);
                cx.check(before.is_none() || before == Some(k), || format!("{}: elements {:?} and {} are one light", name(), before, k));
            } else {
                cx.check(same.is_empty(), || format!("{}: the shape of element {} is taken for a light", name(), k));
            }
        }
        // and beside it there is nothing
        let r = sees(p, [2.5, 0.5, 0.]);
        cx.evals(1);
        cx.check(s.intersect(&r).is_none() && !s.intersect_p(&r), || format!("{}: something is hit beside element {}", name(), k));
    }
    for k in kinds.len()..PLACES.len() {
        let r = sees(PLACES[k], [0.; 3]);
        cx.check(s.intersect(&r).is_none() && !s.intersect_p(&r), || format!("{}: something is hit where nothing was added", name()));
    }
    let i = Interaction { p: p3([0., 0., 50.]), n: n3([0., 0., -1.]), sn: n3([0., 0., -1.]), ..Default::default() };
    for j in 0..want {
        if owner[j].is_some() { 
            // the very light: what it sends from its points is what its hits emit
            let k = owner[j].unwrap();
            if kinds[k] == TriLight {
                let (wi, l, _, _) = s.lights()[j].sample_li(&Interaction { p: p3(add(place(k), [0., 0., 5.])), n: n3([0., 0., -1.]), sn: n3([0., 0., -1.]), ..Default::default() }, Point2f::new(0.4, 0.6));
                cx.check(asp(l) == colour(k).map(|x| x as f64) && a3(wi)[2] < 0., || format!("{}: area light {} sends {:?} from {:?}", name(), k, asp(l), a3(wi)));
            }
            continue;
        }
        let (wi, l, _, _) = s.lights()[j].sample_li(&i, Point2f::new(0.5, 0.5));
        let found = (0..kinds.len()).find(|&k| kinds[k].is_light() && !kinds[k].is_area() && asp(l) == colour(k).map(|x| x as f64) && close(a3(wi), toward(k), 1e-5));
        match found {
            Some(k) if !owner.contains(&Some(k)) => owner[j] = Some(k),
            _ => { cx.fail(format!("{}: light {} of the scene, sending {:?} from {:?}, is none of those added, or one of them twice", name(), j, asp(l), a3(wi))); return; }
        }
    }
}

fn decode(mut i: u64, max: usize) -> Vec<Kind> {
    // all sequences of length 0, then 1, ...
    let n = KINDS.len() as u64;
    for len in 0..=max as u32 {
        let c = n.pow(len);
        if i < c { let mut d = Digits(i); return (0..len).map(|_| *d.of(&KINDS)).collect(); }
        i -= c;
    }
    unreachable!()
}
fn sequences(max: usize) -> u64 { (0..=max as u32).map(|l| (KINDS.len() as u64).pow(l)).sum() }

/// A camera whose k-th pixel of a row looks at place k.
#[derive(Clone)]
struct Row;
impl Camera for Row {
    fn generate_ray(&self, s: &CameraSample) -> Ray { sees(PLACES[(s.p_film.x.max(0.) as usize).min(PLACES.len() - 1)], [0.1, 0.2, 0.]) }
}

fn all_containers(kinds: &[Kind], cx: &mut Cx) {
    for which in 0..5 {
        let b = add_all(kinds);
        let m = &b.materials;
        let n = std::cell::Cell::new(usize::MAX);
        let count = |s: Box<[Arc<dyn Shape>]>| { n.set(s.len()); s };
        match which {
            0 => inspect(kinds, &b.builder.construct(|s| Brute(count(s))), m, "a list", cx),
            1 => inspect(kinds, &b.builder.construct(|s| Simple::new(count(s))), m, "the simple container", cx),
            2 => inspect(kinds, &b.builder.construct(|s| KdTree::new(count(s), None)), m, "a k-d tree", cx),
            3 => inspect(kinds, &b.builder.construct(|s| KdTree::new(count(s), Some(0))), m, "a k-d tree of depth 0", cx),
            _ => inspect(kinds, &b.builder.construct(|s| KdTree::new(count(s), Some(20))), m, "a k-d tree of depth 20", cx),
        }
        let want = kinds.iter().filter(|k| k.is_shape()).count();
        cx.check(n.get() == want, || format!("{:?}: the container was given {} shapes instead of {}", kinds, n.get(), want));
        for (k, t) in &b.told {
            let t = t.lock().unwrap();
            let Some(t) = t.last() else { cx.fail(format!("{:?}: light {} was told no bounds", kinds, k)); return };
            for (j, kind) in kinds.iter().enumerate() {
                if !kind.is_shape() { continue; }
                let (lo, hi) = if matches!(kind, Ball | BallLight) { ([-1., -1., -1.], [1., 1., 1.]) } else { ([-1.5, -1., 0.], [1.5, 2., 0.]) };
                let (lo, hi) = (add(place(j), lo), add(place(j), hi));
                let (a, b) = (ap(t.min), ap(t.max));
                cx.evals(1);
                cx.check((0..3).all(|x| a[x] <= lo[x] + 1e-4 && hi[x] - 1e-4 <= b[x]), || format!("{:?}: light {} was told {:?}..{:?}, which leaves out element {}", kinds, k, a, b, j));
            }
        }
        if cx.failed() { return; }
    }
}

fn main() {
    let mut c = Check::new("C28", Level::Exploration);
    let max = c.pick(6, 7);
    c.family("sequences of additions", &format!("every sequence of up to {} additions of a sphere, a triangle, a triangle light, a sphere light, a distant light and a light that records what it is told, built into a plain list, the simple container and k-d trees of three depths; every element is looked at straight, nothing is hit elsewhere, every light is one of those added and told bounds that enclose everything; non-trivial: a shape and a light", max), sequences(max), |i, cx| {
        let kinds = decode(i, max);
        if kinds.iter().any(|k| k.is_shape()) && kinds.iter().any(|k| k.is_light()) { cx.nontrivial(); }
        cx.sample(|| format!("{:?}", kinds));
        all_containers(&kinds, cx);
    });

    let max = c.pick(4, 5);
    let sizes = c.pick(vec![9usize, 16, 17, 33, 64, 65, 128, 129, 255, 256, 257, 300], vec![9, 16, 17, 33, 63, 64, 65, 100, 127, 128, 129, 255, 256, 257, 300, 511, 513]);
    c.family("large scenes", "9 to 300 (thorough 513) elements, all of one of the 6 kinds or the kinds in turn in 6 orders, in the same containers: the same questions; non-trivial: all", sizes.len() as u64 * 12, |i, cx| {
        let mut d = Digits(i);
        let (n, pat) = (*d.of(&sizes), d.take(12));
        let kinds: Vec<Kind> = (0..n).map(|k| if pat < 6 { KINDS[pat] } else { KINDS[[k % 6, 5 - k % 6, (k / 2) % 6, (k * 5 + k / 6) % 6, [0, 2][k % 2], [2, 4, 2, 5][k % 4]][pat - 6]] }).collect();
        cx.nontrivial();
        cx.sample(|| format!("{} elements, pattern {}", n, pat));
        all_containers(&kinds, cx);
    });
    c.family("rendered sequences", &format!("every such sequence of up to {} additions (sphere lights, which cannot be sampled, are left to their own family), rendered with 1 and 2 threads in a k-d tree and a simple container: the render ends, emitters show their colour and all else is black; non-trivial: something to see", max), sequences(max) * 4, |i, cx| {
        let kinds = decode(i / 4, max);
        if kinds.contains(&BallLight) { return; }
        if kinds.iter().any(|k| k.is_shape()) { cx.nontrivial(); }
        cx.sample(|| format!("{:?}", kinds));
        let ks = kinds.clone();
        let img = image_of(move || {
            let film = Film::new(Point2u::new(PLACES.len() as u32, 1), box_filter(0.5));
            let s = FnSampler::new(2, |_, k, call| if call < 2 { 0.5 } else { (0.37 + 0.1 * call as f32 + 0.3 * k as f32) % 1. });
            let b = add_all(&ks).builder;
            let threads = 1 + (i % 2) as u8;
            if i / 2 % 2 == 0 { Integrator::new(b.construct(|s| KdTree::new(s, None)), s, Row, film).render(threads) }
            else { Integrator::new(b.construct(Simple::new), s, Row, film).render(threads) }
        });
        let img = match img { Ok(x) => x, Err(e) => { cx.fail(format!("{:?}: {}", kinds, e)); return; } };
        for k in 0..PLACES.len() {
            let want = if k < kinds.len() && kinds[k].is_area() { colour(k).map(|x| srgb255(x as f64)) } else { [0.; 3] };
            let got = img.at(k, 0);
            cx.evals(1);
            cx.check((0..3).all(|a| (got[a] as f64 - want[a]).abs() <= 0.51), || format!("{:?}: pixel {} shows {:?} instead of {:?}", kinds, k, got, want));
        }
    });

    c.case("a sphere light and a receiver", "a sphere as an area light over a floor, rendered", |cx| {
        let r = image_of(|| {
            let mut b = add_all(&[Tri]).builder;
            b.add_area_light(AreaLight::new(spec([1., 1., 1.]), Sphere::new(p3([0., 0., 20.]), 1., Arc::new(NoMaterial))));
            let film = Film::new(Point2u::new(2, 1), box_filter(0.5));
            let s = FnSampler::new(1, |_, _, _| 0.5);
            Integrator::new(b.construct(|s| KdTree::new(s, None)), s, Row, film).render(1)
        });
        cx.nontrivial();
        cx.evals(1);
        if let Err(e) = r {
            // the finding is that points on a sphere cannot be sampled, not that this render fails
            let sample = catch(|| Sphere::new(p3([0., 0., 20.]), 1., Arc::new(NoMaterial)).sample(Point2f::new(0.3, 0.6)).p);
            let key = if sample.is_err_and(|e| e.contains("not implemented")) { "sphere-area-light" } else { "" };
            cx.fail_key(key, format!("a scene with a sphere as an area light cannot be rendered: {}", e));
        }
    });

    // meshes
    let nv = 4usize;
    let vs: Vec<V> = vec![[0., 0., 0.], [4., 0., 0.5], [0.5, 4., -0.5], [3., 3., 3.]];
    let ns: Vec<V> = vec![[0., 0., 1.], [0.25, 0., 1.], [0., -0.25, 1.], [-0.25, 0.25, 1.], [0.5, 0., 1.], [0., 0.5, 1.]];
    let per = nv.pow(3) as u64;
    let modes = 8u64;
    let judge = |cx: &mut Cx, idx: &[[usize; 3]], nidx: &[[usize; 3]], mode: usize| {
        let m: Arc<dyn Material> = Arc::new(Tag(0));
        let pv = || vs.iter().map(|v| p3(*v)).collect::<Vec<_>>().into_boxed_slice();
        let pn = || ns.iter().map(|v| n3(*v)).collect::<Vec<_>>().into_boxed_slice();
        let (vn, ni, with) = match mode {
            0 => (None, None, false),
            1 => (Some(pn()), Some(nidx.to_vec()), true),
            2 => (Some(pn()), Some(idx.to_vec()), true),
            3 => (Some(pn()), None, false),
            // just as many normals as the indices need: often fewer than there are vertices
            6 => (Some({ let most = nidx.iter().flatten().max().map_or(0, |m| m + 1); ns[..most].iter().map(|v| n3(*v)).collect::<Vec<_>>().into_boxed_slice() }), Some(nidx.to_vec()), true),
            // indices that reach normals beyond the number of vertices
            7 => (Some(pn()), Some(nidx.iter().map(|t| t.map(|x| x + 2)).collect()), true),
            // one triple of indices short: flat
            8 => (Some(pn()), Some(nidx[1..].to_vec()), false),
            // more normals than triangles
            4 => (Some(pn()), Some({ let mut v = nidx.to_vec(); v.push([0, 0, 0]); v }), true),
            _ => (None, Some(vec![]), false),
        };
        let tris = Triangle::new_triangle_mesh(pv(), idx.to_vec().into_boxed_slice(), vn, ni.clone().map(|v| v.into_boxed_slice()), m.clone());
        let name = || format!("mesh {:?} with normals {:?} (mode {})", idx, ni, mode);
        if !cx.check(tris.len() == idx.len(), || format!("{}: {} triangles instead of {}", name(), tris.len(), idx.len())) { return; }
        for (j, t) in idx.iter().enumerate() {
            let corners = t.map(|x| vs[x]);
            let normals = if with { let n = ni.as_ref().unwrap()[j]; Some(n.map(|x| n3(ns[x]))) } else { None };
            let want = Triangle::new(corners.map(p3), normals, false, m.clone());
            let got = &tris[j];
            cx.evals(1);
            let (a, b) = (got.bbox(), want.bbox());
            cx.check(ap(a.min) == ap(b.min) && ap(a.max) == ap(b.max), || format!("{}: triangle {} spans {:?}..{:?} instead of {:?}..{:?}", name(), j, ap(a.min), ap(a.max), ap(b.min), ap(b.max)));
            cx.check(rel(got.area() as f64, want.area() as f64) < 1e-6 || got.area() == want.area(), || format!("{}: triangle {} has area {} instead of {}", name(), j, got.area(), want.area()));
            cx.check(addr(&*got.material()) == addr(&*m), || format!("{}: triangle {} has another material", name(), j));
            if want.area() < 1e-3 { continue; }
            for w in [[0.6, 0.3, 0.1], [0.1, 0.6, 0.3], [0.3, 0.1, 0.6], [0.34, 0.33, 0.33]] {
                let p = (0..3).fold([0.; 3], |s, k| add(s, mul(corners[k], w[k])));
                let d = cross(sub(corners[1], corners[0]), sub(corners[2], corners[0]));
                let r = Ray { origin: p3(add(p, mul(d, 0.5))), direction: v3(mul(d, -1.)), t_max: f32::INFINITY };
                let h = |t: &Triangle| t.intersect(&r).map(|(i, t)| (ap(i.p), an(i.n), an(i.sn), i.uv, a3(i.dpdu), a3(i.dpdv), t));
                let (g, x) = (h(got), h(&want));
                cx.evals(1);
                let same = match (&g, &x) {
                    (Some(g), Some(x)) => close(g.0, x.0, 1e-5) && close(g.1, x.1, 1e-5) && close(g.2, x.2, 1e-5) && (g.3.x - x.3.x).abs() < 1e-5 && (g.3.y - x.3.y).abs() < 1e-5 && close(g.4, x.4, 1e-4) && close(g.5, x.5, 1e-4) && (g.6 - x.6).abs() < 1e-5,
                    _ => false,
                };
                cx.check(same, || format!("{}: triangle {} is hit as {:?} instead of {:?}", name(), j, g, x));
            }
        }
    };
    let triple = |k: u64| -> [usize; 3] { let mut d = Digits(k); [d.take(nv), d.take(nv), d.take(nv)] };
    c.family("meshes of one triangle", "every index triple over 4 vertices x every normal-index triple over 4 normals x eight ways of giving normals (none, own indices, the vertices' indices, normals without indices, more indices than triangles, empty lists, fewer normals than vertices, more normals than vertices); non-trivial: three different corners", per * per * modes, |i, cx| {
        let mut d = Digits(i);
        let (mode, a, b) = (d.take(modes as usize), triple(d.take(per as usize) as u64), triple(d.take(per as usize) as u64));
        if a[0] != a[1] && a[1] != a[2] && a[0] != a[2] { cx.nontrivial(); }
        cx.sample(|| format!("{:?} {:?} mode {}", a, b, mode));
        judge(cx, &[a], &[b], mode);
    });
    let len = 3u32;
    c.family("meshes of several triangles", &format!("every list of {} index triples over 4 vertices, x five ways of giving normals (none, indices of their own, the vertices' indices, just the normals the indices need, one triple of indices too few, which makes the mesh flat); non-trivial: two different triples", len), per.pow(len) * 5, |i, cx| {
        let mut d = Digits(i);
        let mode = [0, 1, 2, 6, 8][d.take(5)];
        let idx: Vec<[usize; 3]> = (0..len).map(|_| triple(d.take(per as usize) as u64)).collect();
        let nidx: Vec<[usize; 3]> = idx.iter().rev().map(|t| [t[1], t[0], t[2]]).collect();
        if idx[0] != idx[1] { cx.nontrivial(); }
        judge(cx, &idx, &nidx, mode);
    });
    let sizes = c.pick(vec![1000usize, 4100, 70_000], vec![1000, 4100, 8200, 33_000, 70_000, 200_000]);
    c.family("huge scenes", "1000 to 70 000 (thorough 200 000) elements, the kinds in turn or all triangles: the container is given exactly the shapes, the scene has exactly the lights, lights are told bounds around everything; non-trivial: all", sizes.len() as u64 * 2, |i, cx| {
        let mut d = Digits(i);
        let (n, mixed) = (*d.of(&sizes), d.take(2) == 0);
        cx.nontrivial();
        let mut b = Builder::new();
        let m: Arc<dyn Material> = Arc::new(NoMaterial);
        let told = Arc::new(Mutex::new(vec![]));
        b.add_light(self::Told { inner: DistantLight::new(spec([1.; 3]), v3([0., 0., 1.])), told: told.clone() });
        let at = |k: usize| -> V { [4. * (k % 512) as f64, 4. * (k / 512) as f64, (k % 5) as f64] };
        let (mut lights, mut shapes) = (1, 0);
        for k in 0..n {
            match if mixed { k % 4 } else { 0 } {
                0 => { shapes += 1; b.add_shape(triangle(at(k), m.clone())) },
                1 => { shapes += 1; lights += 1; b.add_area_light(AreaLight::new(spec([k as f32, 1., 0.]), triangle(at(k), m.clone()))) },
                2 => { shapes += 1; b.add_shape(Sphere::new(p3(at(k)), 1., m.clone())) },
                _ => { lights += 1; b.add_light(DistantLight::new(spec([k as f32, 0., 1.]), v3([0., 0., 1.]))) },
            }
        }
        let given = std::cell::RefCell::new(vec![]);
        let s = b.construct(|s: Box<[Arc<dyn Shape>]>| { *given.borrow_mut() = s.iter().map(|s| s.bbox()).collect(); Brute(s) });
        let what = || format!("{} elements ({})", n, if mixed { "mixed" } else { "triangles" });
        cx.evals(n as u64);
        let given = given.into_inner();
        cx.check(given.len() == shapes, || format!("{}: the container was given {} shapes instead of {}", what(), given.len(), shapes));
        cx.check(s.lights().len() == lights, || format!("{}: the scene has {} lights instead of {}", what(), s.lights().len(), lights));
        // every element is among the shapes given
        let key = |b: &BBox3f| ((b.min.x + b.max.x) / 2. / 4.).round() as i64 + ((b.min.y + 1.) / 4.).round() as i64 * 512;
        let mut seen = vec![0u8; n];
        for g in &given { let k = key(g); if k >= 0 && (k as usize) < n { seen[k as usize] += 1; } }
        for k in 0..n {
            let want = if mixed && k % 4 == 3 { 0 } else { 1 };
            if !cx.check(seen[k] == want, || format!("{}: element {} was given to the container {} times", what(), k, seen[k])) { return; }
        }
        let Some(t) = told.lock().unwrap().last().copied() else { cx.fail(format!("{}: the light was told no bounds", what())); return };
        for g in &given { if !cx.check((0..3).all(|x| t.min[x] <= g.min[x] && g.max[x] <= t.max[x]), || format!("{}: the light was told {:?}..{:?}, which leaves out {:?}..{:?}", what(), ap(t.min), ap(t.max), ap(g.min), ap(g.max))) { return; } }
        cx.sample(|| format!("{}: {} shapes, {} lights", what(), shapes, lights));
    });
    // nothing is merged or dropped because something like it is there already
    let len = c.pick(4usize, 5);
    c.family("in the same place", &format!("every word of up to {} additions of a triangle, the same as a light, as a light facing the other way, the same light with another radiance, a sphere, the same as a light, a distant light and a reversed triangle, all in one place and otherwise equal: the container is given exactly as many shapes and the scene has exactly as many lights as were added; a point of each light still sends its own radiance; non-trivial: two or more", len), (0..=len as u32).map(|l| 8u64.pow(l)).sum(), |mut i, cx| {
        let mut l = 0;
        while i >= 8u64.pow(l) { i -= 8u64.pow(l); l += 1; }
        let word: Vec<usize> = (0..l).map(|k| (i / 8u64.pow(k) % 8) as usize).collect();
        let m: Arc<dyn Material> = Arc::new(NoMaterial);
        let v = [[-1.5, -1., 0.], [1.5, -1., 0.], [0., 2., 0.]].map(p3);
        let tri = |reverse: bool| Triangle::new(v, None, reverse, m.clone());
        let (one, two) = (spec([1., 0.5, 0.25]), spec([0.25, 1., 2.]));
        let mut b = Builder::new();
        for k in &word { match k {
            0 => b.add_shape(tri(false)),
            1 => b.add_area_light(AreaLight::new(one, tri(false))),
            2 => b.add_area_light(AreaLight::new(one, tri(true))),
            3 => b.add_area_light(AreaLight::new(two, tri(false))),
            4 => b.add_shape(Sphere::new(p3([0.; 3]), 1., m.clone())),
            5 => b.add_area_light(AreaLight::new(one, Sphere::new(p3([0.; 3]), 1., m.clone()))),
            6 => b.add_light(DistantLight::new(one, v3([0., 0., 1.]))),
            _ => b.add_shape(tri(true)),
        } }
        let given = std::cell::RefCell::new(0);
        let s = b.construct(|s: Box<[Arc<dyn Shape>]>| { *given.borrow_mut() = s.len(); Brute(s) });
        let given = given.into_inner();
        let count = |f: &dyn Fn(usize) -> bool| word.iter().filter(|k| f(**k)).count();
        let (shapes, lights) = (count(&|k| k != 6), count(&|k| matches!(k, 1 | 2 | 3 | 5 | 6)));
        let what = || format!("additions {:?}", word);
        cx.evals(1);
        cx.nontrivials((l > 1) as u64);
        cx.check(given == shapes, || format!("{}: the container was given {} shapes instead of {}", what(), given, shapes));
        if !cx.check(s.lights().len() == lights, || format!("{}: the scene has {} lights instead of {}", what(), s.lights().len(), lights)) { return; }
        // sphere lights cannot be sampled
        if word.contains(&5) { return; }
        // seen from above and below, each light that faces the point sends its radiance
        for z in [5., -5.] {
            let i = Interaction { p: p3([0.1, 0.2, z]), n: n3([0., 0., -z.signum()]), sn: n3([0., 0., -z.signum()]), ..Default::default() };
            let mut got: Vec<[i32; 3]> = s.lights().iter().map(|l| asp(l.sample_li(&i, Point2f::new(0.4, 0.6)).1).map(|x| (x * 64.) as i32)).collect();
            let mut want: Vec<[i32; 3]> = word.iter().filter_map(|k| match k { 1 | 2 | 3 => Some(if (*k == 2) != (z > 0.) { asp(if *k == 3 { two } else { one }) } else { [0.; 3] }), 6 => Some(asp(one)), _ => None }).map(|x| x.map(|x| (x * 64.) as i32)).collect();
            got.sort();
            want.sort();
            cx.check(got == want, || format!("{}: at height {} the lights send {:?}/64, expected {:?}/64", what(), z, got, want));
        }
        cx.sample(|| format!("{}: {} shapes, {} lights", what(), shapes, lights));
    });
    let sides = c.pick(vec![100usize, 300], vec![100, 200, 300, 600]);
    c.family("huge meshes", "grids of 100 x 100 to 300 x 300 (thorough 600 x 600) vertices, flat or with normals: as many triangles as index triples, each between its own corners with its own normals; non-trivial: all", sides.len() as u64 * 2, |i, cx| {
        let mut d = Digits(i);
        let (n, with) = (*d.of(&sides), d.take(2) == 1);
        cx.nontrivial();
        let m: Arc<dyn Material> = Arc::new(NoMaterial);
        let vs: Vec<Point3f> = (0..n * n).map(|k| Point3f::new((k % n) as f32, (k / n) as f32, ((k * 7) % 4) as f32 * 0.125)).collect();
        let ns: Vec<pt::vector::Normal3f> = (0..n * n).map(|k| n3([(k % n) as f64 / n as f64, (k / n) as f64 / n as f64, 1.])).collect();
        let mut idx = vec![];
        for y in 0..n - 1 { for x in 0..n - 1 { let k = y * n + x; idx.push([k, k + 1, k + n]); idx.push([k + n + 1, k + n, k + 1]); } }
        let nidx: Vec<[usize; 3]> = idx.iter().map(|t| t.map(|k| n * n - 1 - k)).collect();
        let tris = Triangle::new_triangle_mesh(vs.clone().into_boxed_slice(), idx.clone().into_boxed_slice(), if with { Some(ns.clone().into_boxed_slice()) } else { None }, if with { Some(nidx.clone().into_boxed_slice()) } else { None }, m);
        cx.evals(idx.len() as u64);
        if !cx.check(tris.len() == idx.len(), || format!("a mesh of {} x {} vertices: {} triangles instead of {}", n, n, tris.len(), idx.len())) { return; }
        for (j, t) in idx.iter().enumerate() {
            let b = tris[j].bbox();
            let of = |f: fn(f32, f32) -> f32, a: usize| t.iter().map(|&k| vs[k][a]).fold(vs[t[0]][a], f);
            let ok = (0..3).all(|a| (b.min[a] - of(f32::min, a)).abs() < 1e-3 && (b.max[a] - of(f32::max, a)).abs() < 1e-3);
            if !cx.check(ok, || format!("a mesh of {} x {} vertices: triangle {} with corners {:?} spans {:?}..{:?}", n, n, j, t, ap(b.min), ap(b.max))) { return; }
            let o = t.iter().fold([0.; 3], |s, &k| add(s, mul(ap(vs[k]), 1. / 3.)));
            let r = Ray { origin: p3(add(o, [0., 0., 2.])), direction: v3([0., 0., -1.]), t_max: f32::INFINITY };
            let Some((h, _)) = tris[j].intersect(&r) else { cx.fail(format!("a mesh of {} x {} vertices: triangle {} is missed at its centre", n, n, j)); return };
            if with {
                let want = norm(nidx[j].iter().fold([0.; 3], |s, &k| add(s, an(ns[k]))));
                if !cx.check(close(an(h.sn), want, 1e-3), || format!("a mesh of {} x {} vertices: triangle {} with normals {:?} has the normal {:?} instead of {:?} at its centre", n, n, j, nidx[j], an(h.sn), want)) { return; }
            }
        }
        cx.sample(|| format!("{} x {} vertices, normals {}", n, n, with));
    });
    c.case("an empty mesh", "no index triples: no triangles", |cx| {
        cx.evals(1);
        let t = catch(|| Triangle::new_triangle_mesh(Box::new([]), Box::new([]), None, None, Arc::new(NoMaterial)).len());
        cx.check(t == Ok(0), || format!("an empty mesh gives {:?} triangles", t));
    });
    c.finish()
}
