//! C32: queries and renders leave nothing behind that changes a later one.
use checks::*;
use mc::{sched, Check, Cx, Digits, Explore, Fault, Level, World};
use pt::api::*;
use pt::camera::{Camera, CameraSample};
use pt::container::Container;
use pt::container_simple::Simple;
use pt::interaction::Interaction;
use pt::ray::Ray;
use pt::scene::Scene;
use std::sync::atomic::{AtomicI64, Ordering};
use std::sync::Arc;

fn tex(v: [f32; 3]) -> Arc<ConstantTexture<Spectrum>> { Arc::new(ConstantTexture::new(Spectrum::new(v[0], v[1], v[2]))) }
fn num(v: f32) -> Arc<ConstantTexture<f32>> { Arc::new(ConstantTexture::new(v)) }

/// Enough shapes for the tree to split, all materials, both kinds of light.
fn parts() -> Builder {
    let mats: Vec<Arc<dyn Material>> = vec![
        Arc::new(LambertianReflectionMaterial::new(Arc::new(CheckerboardTexture::new(UVMapping2D::new(3., 2., 0.1, 0.3), Spectrum::new(0.7, 0.6, 0.5), Spectrum::new(0.2, 0.3, 0.4))))),
        Arc::new(PlasticMaterial::new(tex([0.3, 0.4, 0.2]), tex([0.4; 3]), num(0.3))),
        Arc::new(MetalMaterial::new(tex([0.9; 3]), tex([0.2, 0.9, 1.1]), tex([3.9, 2.4, 2.1]), num(0.2), num(0.4))),
        Arc::new(GlassMaterial::new(tex([1.; 3]), tex([1.; 3]), num(1.5), num(0.), num(0.))),
        Arc::new(MirrorMaterial::new(tex([0.9; 3]))),
    ];
    let mut b = Builder::new();
    for k in 0..12 {
        let (x, y) = ((k % 4) as f64 * 2. - 3., (k / 4) as f64 * 2. - 2.);
        let z = 0.25 * (k % 3) as f64;
        b.add_shape(Triangle::new([p3([x - 1., y - 1., z]), p3([x + 1., y - 1., z]), p3([x, y + 1., z + 0.5])], None, false, mats[k % 5].clone()));
    }
    b.add_shape(Triangle::new([p3([-9., -9., -0.5]), p3([9., -9., -0.5]), p3([0., 12., -0.5])], None, false, mats[0].clone()));
    b.add_shape(Sphere::new(Point3f::new(0.5, 0., 1.75), 0.75, mats[3].clone()));
    b.add_shape(Sphere::new(Point3f::new(-2., 1., 1.5), 0.5, mats[4].clone()));
    b.add_area_light(AreaLight::new(Spectrum::new(5., 4., 3.), Triangle::new([p3([-1., -1., 5.]), p3([1., -1., 5.]), p3([1., 1., 5.])], None, true, mats[0].clone())));
    b.add_area_light(AreaLight::new(Spectrum::new(1., 2., 3.), Triangle::new([p3([3., -1., 4.]), p3([4., -1., 4.]), p3([4., 1., 5.])], None, true, mats[0].clone())));
    b.add_light(DistantLight::new(Spectrum::new(0.4, 0.5, 0.6), Vector3f::new(1., -1., 3.)));
    b
}

/// What can be asked of a scene.
#[derive(Clone, Copy, Debug)]
enum Query { Closest(usize), Any(usize), Light(usize, usize, usize), Scatter(usize, usize), Camera(usize) }

fn ray(k: usize) -> Ray {
    let (o, d, t) = [
        ([0.5, 0., 6.], [0., 0., -1.], f32::INFINITY),
        ([0.5, 0., 6.], [0., 0., -1.], 3.),
        ([0.5, 0., 6.], [-0.5, 0.25, -1.], f32::INFINITY),
        ([-2., 1., 4.], [0., 0., -1.], f32::INFINITY),
        ([-4., -3.5, 0.3], [1., 0.75, 0.], f32::INFINITY),
        ([-4., -3.5, 0.3], [1., 0.75, 0.], 2.),
        ([0.5, 0., 6.], [0., 0., 1.], f32::INFINITY),
        ([3., 1.9, 3.], [-0.25, -0.125, -1.], f32::INFINITY),
    ][k];
    Ray { origin: p3(o), direction: v3(d), t_max: t }
}

fn show(i: &Interaction) -> Vec<u32> {
    let mut v: Vec<f32> = vec![];
    v.extend([i.p.x, i.p.y, i.p.z, i.n.x, i.n.y, i.n.z, i.sn.x, i.sn.y, i.sn.z, i.uv.x, i.uv.y, i.dpdu.x, i.dpdu.y, i.dpdu.z, i.dpdv.x, i.dpdv.y, i.dpdv.z, i.wo.x, i.wo.y, i.wo.z, i.p_err.x, i.p_err.y, i.p_err.z]);
    if i.shape.is_some() {
        let l = i.le(i.wo);
        let f = i.compute_scattering().f(i.wo, Vector3f::new(0.36, 0.48, 0.8));
        v.extend([l.r, l.g, l.b, f.r, f.g, f.b]);
    }
    v.into_iter().map(f32::to_bits).collect()
}

fn ask<C: Container>(s: &Scene<C>, q: Query) -> Vec<u32> {
    let hit = |k: usize| s.intersect(&ray(k));
    let fl = |v: &[f32]| v.iter().map(|x| x.to_bits()).collect::<Vec<u32>>();
    match q {
        Query::Closest(k) => hit(k).map_or(vec![], |i| show(&i)),
        Query::Any(k) => vec![s.intersect_p(&ray(k)) as u32],
        Query::Light(l, r, u) => match hit(r) {
            None => vec![],
            Some(i) => {
                let u = [[0.3f32, 0.6], [0.9, 0.2]][u];
                let (wi, li, pdf, vis) = s.lights()[l].sample_li(&i, Point2f::new(u[0], u[1]));
                let other = s.lights()[l].pdf_li(&i, Vector3f::new(0.1, 0.05, 0.99));
                let mut v = fl(&[wi.x, wi.y, wi.z, li.r, li.g, li.b, pdf, other]);
                v.push(vis.unoccluded(s) as u32);
                v
            }
        },
        Query::Scatter(r, u) => match hit(r) {
            None => vec![],
            Some(i) => {
                let u = [[0.3f32, 0.6], [0.9, 0.2]][u];
                let b = i.compute_scattering();
                let (wi, f, pdf, flag) = b.sample_f(i.wo, Point2f::new(u[0], u[1]));
                let p = b.pdf(i.wo, wi);
                let mut v = fl(&[wi.x, wi.y, wi.z, f.r, f.g, f.b, pdf, p]);
                v.push(flag as u32);
                v.extend(s.intersect(&i.spawn_ray(wi)).map_or(vec![], |i| show(&i)));
                v
            }
        },
        Query::Camera(k) => {
            let c = PerspectiveCamera::new(Transform::look_at(Point3f::new(0., -6., 3.), Point3f::new(0., 0., 0.), Vector3f::new(0., 0., 1.)), Transform::perspective([40., 70.][k], 0.1, 100.), BBox2f::new(Point2f::new(-1., -1.), Point2f::new(1., 1.)), Point2u::new(8, 8));
            let r = c.generate_ray(&CameraSample { p_film: Point2f::new(3.5, 4.25) });
            let mut v = fl(&[r.origin.x, r.origin.y, r.origin.z, r.direction.x, r.direction.y, r.direction.z]);
            v.extend(s.intersect(&r).map_or(vec![], |i| show(&i)));
            v
        }
    }
}

enum Any { Tree(Scene<KdTree>), List(Scene<Simple>) }
impl Any {
    fn new(k: usize) -> Any { if k == 0 { Any::Tree(parts().construct(|s| KdTree::new(s, None))) } else { Any::List(parts().construct(Simple::new)) } }
    fn ask(&self, q: Query) -> Vec<u32> { match self { Any::Tree(s) => ask(s, q), Any::List(s) => ask(s, q) } }
}

/// When the cameras fail, which act is going on, and how many rays were asked for by workers of earlier acts.
#[derive(Default)]
struct Plan { left: AtomicI64, now: AtomicI64, stale: AtomicI64 }
/// A camera that fails when its count runs out; what a worker holds was cloned in the act it works for.
struct Frail<C: Camera>(C, Arc<Plan>, i64);
impl<C: Camera> Clone for Frail<C> {
    fn clone(&self) -> Self { Frail(self.0.clone(), self.1.clone(), self.1.now.load(Ordering::SeqCst)) }
}
impl<C: Camera> Camera for Frail<C> {
    fn generate_ray(&self, s: &CameraSample) -> Ray {
        if self.2 != 0 && self.2 != self.1.now.load(Ordering::SeqCst) { self.1.stale.fetch_add(1, Ordering::SeqCst); }
        else if self.1.left.fetch_sub(1, Ordering::SeqCst) == 0 { panic!("planned failure"); }
        self.0.generate_ray(s)
    }
}
const NEVER: i64 = 1 << 60;

fn steps(x: f32, y: f32) -> f32 { (if x < 0.75 { 1. } else { 0.5 }) * (if y < 0.5 { 1. } else { 0.25 }) }
/// 0 and 1: samples reach pixels of other tiles. 2: each pixel belongs to one tile, so that a render
/// that failed half way (and keeps what it has accumulated) leaves every pixel's mean as it should be.
/// Radiance in 64ths: all sums are exact.
fn emit(salt: u64) -> Emit {
    Arc::new(move |p: Point2f| {
        let h = mc::num::mix(salt << 50 ^ (((p.x * 4.).floor() as i64 as u64) << 20) ^ ((p.y * 4.).floor() as i64 as u64 & 0xfffff));
        Spectrum::new((h & 63) as f32 / 64., (h >> 8 & 63) as f32 / 64., (h >> 16 & 63) as f32 / 64.)
    })
}
type Wall2 = Integrator<Brute, Frail<RasterCamera>, HaltonSampler>;
fn wall(k: usize, frail: &Arc<Plan>) -> Wall2 {
    let (w, h, r, spp) = [(18u32, 5u32, 1.5f32, 2u32), (3, 17, 1., 1), (33, 4, 0.4375, 4)][k];
    let film = Film::new(Point2u::new(w, h), FnFilter { radius: r, f: steps });
    let s = HaltonSampler::new(spp, film.sample_bbox());
    Integrator::new(wall_scene(emit(k as u64)), s, Frail(RasterCamera, frail.clone(), 0), film)
}
fn lit(k: usize) -> Integrator<KdTree, PerspectiveCamera, HaltonSampler> {
    let (w, h) = [(18u32, 4u32), (4, 5)][k];
    let film = Film::new(Point2u::new(w, h), GaussianFilter::new(1.5, 1.));
    let s = HaltonSampler::new(2, film.sample_bbox());
    let camera = PerspectiveCamera::new(Transform::look_at(Point3f::new(0., -6., 5.), Point3f::new(0., 0., 0.), Vector3f::new(0., 0., 1.)), Transform::perspective(50., 0.1, 100.), BBox2f::new(Point2f::new(-1., -1.), Point2f::new(1., 1.)), Point2u::new(w, h));
    Integrator::new(parts().construct(|s| KdTree::new(s, None)), s, camera, film)
}

/// One act of a history: which integrator, workers, what goes wrong.
#[derive(Clone, Copy, Debug, PartialEq)]
enum Wrong { Nothing, Open, Write, Camera(i64) }
#[derive(Clone, Copy, Debug)]
struct Act { on: usize, workers: u8, wrong: Wrong }

/// The image file after the act, or why there is none.
fn act(wd: &World, a: Act, frail: &Arc<Plan>, render: &dyn Fn(u8)) -> Result<Vec<u8>, String> {
    {
        let mut fs = wd.fs.lock().unwrap();
        let at = fs.ops.len();
        fs.faults.clear();
        match a.wrong { Wrong::Open => { fs.faults.insert(at, Fault::Error); } Wrong::Write => { fs.faults.insert(at + 1, Fault::Error); } _ => () }
    }
    frail.left.store(match a.wrong { Wrong::Camera(k) => k, _ => NEVER }, Ordering::SeqCst);
    frail.now.fetch_add(1, Ordering::SeqCst);
    let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| render(a.workers)));
    frail.now.fetch_add(1, Ordering::SeqCst);
    match r {
        Ok(()) => wd.fs.lock().unwrap().get(OUT).ok_or("no image was written".into()),
        Err(p) => Err(p.downcast_ref::<String>().cloned().or(p.downcast_ref::<&str>().map(|s| s.to_string())).unwrap_or("a panic".into())),
    }
}

fn main() {
    let mut c = Check::new("C32", Level::ModelChecking);
    let mut qs = vec![];
    for k in 0..8 { qs.push(Query::Closest(k)); qs.push(Query::Any(k)); }
    for l in 0..3 { qs.push(Query::Light(l, 0, 0)); qs.push(Query::Light(l, 7, 1)); }
    for r in [0, 2, 3] { qs.push(Query::Scatter(r, 0)); qs.push(Query::Scatter(r, 1)); }
    qs.push(Query::Camera(0));
    qs.push(Query::Camera(1));
    // the answers of scenes that were never asked anything else
    let alone: Vec<Vec<Vec<u32>>> = (0..2).map(|k| qs.iter().map(|&q| mc::catch(|| Any::new(k).ask(q)).unwrap_or_else(|e| vec![e.len() as u32])).collect()).collect();
    let n = qs.len();
    let len = c.pick(3, 4);
    c.family("words of queries", &format!("every word of {} of {} queries (closest and any hit of 8 rays, light samples, scattering samples, camera rays) on a tree and on a list of 17 shapes, starting with an unused scene: each answer is, bit by bit, that of an unused scene; non-trivial: the queries differ", len, n), 2 * (n as u64).pow(len as u32 - 1), |i, cx| {
        let mut g = Digits(i);
        let k = g.take(2);
        let head: Vec<usize> = (1..len).map(|_| g.take(n)).collect();
        if head.iter().any(|&q| q != head[0]) { cx.nontrivial(); }
        let s = Any::new(k);
        for (j, &q) in head.iter().enumerate() {
            let got = s.ask(qs[q]);
            cx.evals(1);
            if got != alone[k][q] { cx.fail(format!("{:?} after {:?} is answered differently from {:?} on its own", qs[q], head[..j].iter().map(|&q| qs[q]).collect::<Vec<_>>(), qs[q])); return; }
        }
        // all continuations: each asked, then the word again
        for (q, want) in alone[k].iter().enumerate() {
            cx.evals(1);
            if s.ask(qs[q]) != *want { cx.fail(format!("{:?} after {:?} (and the queries before it in {:?}) is answered differently from {:?} on its own", qs[q], head.iter().map(|&q| qs[q]).collect::<Vec<_>>(), qs, qs[q])); return; }
            if len > 3 && q % 8 != 0 { continue; }
            let again = head[0];
            if s.ask(qs[again]) != alone[k][again] { cx.fail(format!("{:?} after {:?} is answered differently from {:?} on its own", qs[again], qs[q], qs[again])); return; }
        }
        cx.sample(|| format!("{:?}", head.iter().map(|&q| qs[q]).collect::<Vec<_>>()));
    });
    // two threads asking at the same time
    let some: Vec<usize> = vec![0, 1, 2, 3, 8, 15, 16, 22];
    let mut cfg = Explore::new(2);
    cfg.max_execs = c.pick(3_000, 40_000);
    cfg.time = std::time::Duration::from_secs(c.pick(2, 20));
    for (a, b) in [(0, 1), (0, 2), (4, 5), (6, 7), (1, 3), (2, 7)] {
        let (qa, qb) = (some[a], some[b]);
        c.explore(&format!("two threads {} {}", a, b), "two threads ask one scene two queries each, in opposite order, under all schedules with at most two preemptions: every answer is that of an unused scene; non-trivial: all", &cfg, |_| (), |_| {
            let s = Arc::new(Any::new(0));
            let h: Vec<_> = [[qa, qb], [qb, qa]].into_iter().map(|w| {
                let (s, w) = (s.clone(), w.map(|q| (q, qs[q])));
                vstd::thread::spawn(move || w.map(|(q, x)| (q, s.ask(x))))
            }).collect();
            h.into_iter().map(|h| h.join()).collect::<Vec<_>>()
        }, |e, cx| {
            cx.nontrivial();
            match &e.result {
                Err(_) => cx.fail(e.panic_text().unwrap_or_default()),
                Ok(v) => for t in v { match t {
                    Err(_) => cx.fail("a query failed"),
                    Ok(v) => for (q, got) in v { cx.check(*got == alone[0][*q], || format!("{:?} is answered differently while another thread asks", qs[*q])); },
                } },
            }
        });
    }
    // histories of renders
    let frail = |k| Arc::new(Plan { left: AtomicI64::new(k), ..Plan::default() });
    let reference = |f: &(dyn Fn() + Sync)| mc::single(|_| (), |wd| { f(); wd.fs.lock().unwrap().get(OUT) }).result.ok().flatten();
    let want: Vec<Option<Vec<u8>>> = (0..3).map(|k| reference(&|| wall(k, &frail(NEVER)).render(1))).collect();
    let mut acts = vec![];
    for on in 0..3 { for workers in [1u8, 2, 3] { if on != 1 || workers < 3 { acts.push(Act { on, workers, wrong: Wrong::Nothing }); } } }
    for (on, workers, wrong) in [(0, 1, Wrong::Open), (0, 2, Wrong::Write), (1, 1, Wrong::Write), (2, 1, Wrong::Camera(0)), (2, 2, Wrong::Camera(30)), (2, 3, Wrong::Camera(300)), (2, 2, Wrong::Camera(265))] { acts.push(Act { on, workers, wrong }); }
    let (na, len) = (acts.len() as u64, c.pick(3, 4));
    c.family("histories of renders", &format!("every word of {} of {} acts on three integrators in one process: a render by 1 to 3 workers, one whose file cannot be opened or written, one in which the camera fails; two schedules; every render in which nothing goes wrong writes exactly the image of a first render (all sums exact), and no work goes on when a render has returned or failed; non-trivial: a render follows something", len, acts.len()), na.pow(len as u32) * 2, |i, cx| {
        let mut g = Digits(i);
        let w: Vec<Act> = (0..len).map(|_| *g.of(&acts)).collect();
        let alternate = g.take(2) == 1;
        if w[1..].iter().any(|a| a.wrong == Wrong::Nothing) { cx.nontrivial(); }
        let fr = frail(NEVER);
        let e = sched::run(if alternate { vec![1; 1 << 14] } else { vec![] }, 10_000_000, false, |_| (), |wd: &World| {
            let both = [wall(0, &fr), wall(1, &fr), wall(2, &fr)];
            w.iter().map(|&a| act(wd, a, &fr, &|n| both[a.on].render(n))).collect::<Vec<_>>()
        });
        match &e.result {
            Err(_) => cx.fail(format!("{:?}: {}", w, e.panic_text().unwrap_or_default())),
            Ok(r) => for (k, (a, got)) in w.iter().zip(r).enumerate() {
                cx.evals(1);
                match (a.wrong, got) {
                    (Wrong::Nothing, Err(p)) => cx.fail(format!("the render {:?} after {:?} failed: {}", a, &w[..k], p)),
                    (Wrong::Nothing, Ok(d)) => { cx.check(Some(d) == want[a.on].as_ref(), || format!("the image of {:?} after {:?} is not that of a first render", a, &w[..k])); }
                    (_, Ok(_)) => cx.fail(format!("{:?} after {:?} did not fail", a, &w[..k])),
                    _ => (),
                }
            },
        }
        let late = fr.stale.load(Ordering::SeqCst);
        cx.check(late == 0, || format!("{:?}: {} rays were traced for renders that had already ended", w, late));
        cx.sample(|| format!("{:?}{}", w, if alternate { ", preempted at every point" } else { "" }));
    });
    // path traced, up to rounding
    let want: Vec<Result<Ppm, String>> = (0..2).map(|k| image_of(|| lit(k).render(1))).collect();
    let len = c.pick(4, 6);
    let acts: Vec<Act> = [(0, 1), (0, 2), (1, 1), (1, 3)].iter().map(|&(on, workers)| Act { on, workers, wrong: Wrong::Nothing }).collect();
    c.family("path traced", &format!("every word of {} renders of two path traced scenes by 1 to 3 workers: every image is that of a first render but for one code; non-trivial: all", len), (acts.len() as u64).pow(len), |i, cx| {
        let mut g = Digits(i);
        let w: Vec<Act> = (0..len).map(|_| *g.of(&acts)).collect();
        cx.nontrivial();
        let fr = frail(NEVER);
        let e = sched::run(vec![], 50_000_000, false, |_| (), |wd: &World| {
            let both = [lit(0), lit(1)];
            w.iter().map(|&a| act(wd, a, &fr, &|n| both[a.on].render(n))).collect::<Vec<_>>()
        });
        match &e.result {
            Err(_) => cx.fail(format!("{:?}: {}", w, e.panic_text().unwrap_or_default())),
            Ok(r) => for (k, (a, got)) in w.iter().zip(r).enumerate() { near(a, &w[..k], got, &want[a.on], cx); },
        }
        cx.sample(|| format!("{:?}", w));
    });
    c.finish();
}

fn near(a: &Act, before: &[Act], got: &Result<Vec<u8>, String>, want: &Result<Ppm, String>, cx: &mut Cx) {
    cx.evals(1);
    let (want, got) = match (want, got.as_ref().map_err(|e| e.clone()).and_then(|d| parse_ppm(d))) {
        (Ok(w), Ok(g)) => (w, g),
        (Err(e), _) => { cx.fail(e.clone()); return; }
        (_, Err(e)) => { cx.fail(format!("{:?} after {:?}: {}", a, before, e)); return; }
    };
    let ok = (want.w, want.h) == (got.w, got.h) && (0..want.px.len()).all(|k| (0..3).all(|j| want.px[k][j].abs_diff(got.px[k][j]) <= 1));
    cx.check(ok, || format!("the image of {:?} after {:?} is not that of a first render", a, before));
}
