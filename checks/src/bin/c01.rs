//! C01: the image does not depend on thread count or worker scheduling.
use std::sync::Arc;
use checks::*;
use mc::{Check, Digits, Explore, Level};
use pt::api::*;
use pt::filter::Filter;

fn steps(x: f32, y: f32) -> f32 { (if x < 0.75 { 1. } else { 0.5 }) * (if y < 0.5 { 1. } else { 0.25 }) }

/// Radiance in 64ths: with the step filter all sums are exact, so images must be identical.
fn emit() -> Emit {
    Arc::new(|p: Point2f| {
        let h = mc::num::mix((((p.x * 4.).floor() as i64 as u64) << 20) ^ ((p.y * 4.).floor() as i64 as u64 & 0xfffff));
        Spectrum::new((h & 63) as f32 / 64., (h >> 8 & 63) as f32 / 64., (h >> 16 & 63) as f32 / 64.)
    })
}

fn film(w: u32, h: u32, r: f32) -> Film { Film::new(Point2u::new(w, h), FnFilter { radius: r, f: steps }) }

fn wall_render(w: u32, h: u32, r: f32, spp: u32, threads: u8) {
    let film = film(w, h, r);
    let sampler = HaltonSampler::new(spp, film.sample_bbox());
    Integrator::new(wall_scene(emit()), sampler, RasterCamera, film).render(threads);
}

/// A path traced scene: every sample consumes many dimensions of the sampler.
fn lit_render(w: u32, h: u32, spp: u32, threads: u8) {
    let mut b = Builder::new();
    let grey = Arc::new(LambertianReflectionMaterial::new(Arc::new(ConstantTexture::new(Spectrum::from(0.5)))));
    for (a, bb, c) in [([-9., -9., 0.], [9., -9., 0.], [9., 9., 0.]), ([9., 9., 0.], [-9., 9., 0.], [-9., -9., 0.])] {
        b.add_shape(Triangle::new([p3(a), p3(bb), p3(c)], None, false, grey.clone()));
    }
    b.add_shape(Sphere::new(Point3f::new(0., 0., 1.), 1., Arc::new(GlassMaterial::new(
        Arc::new(ConstantTexture::new(Spectrum::from(1.))), Arc::new(ConstantTexture::new(Spectrum::from(1.))),
        Arc::new(ConstantTexture::new(1.5)), Arc::new(ConstantTexture::new(0.)), Arc::new(ConstantTexture::new(0.))))));
    b.add_area_light(AreaLight::new(Spectrum::from(3.), Triangle::new([p3([-2., -2., 5.]), p3([2., -2., 5.]), p3([2., 2., 5.])], None, true, grey.clone())));
    b.add_light(DistantLight::new(Spectrum::new(0.2, 0.3, 0.4), Vector3f::new(1., -1., 2.)));
    let scene = b.construct(|s| KdTree::new(s, None));
    let film = Film::new(Point2u::new(w, h), GaussianFilter::new(1.5, 1.));
    let sampler = HaltonSampler::new(spp, film.sample_bbox());
    let camera = PerspectiveCamera::new(
        Transform::look_at(Point3f::new(-2., -9., 4.), Point3f::new(0., 0., 1.), Vector3f::new(0., 0., 1.)),
        Transform::perspective(40., 0.01, 1000.),
        BBox2f::new(Point2f::new(-1., -1.), Point2f::new(1., 1.)),
        Point2u::new(w, h),
    );
    Integrator::new(scene, sampler, camera, film).render(threads);
}

fn main() {
    let mut c = Check::new("C01", Level::ModelChecking);
    c.assume("operations between two synchronisation operations run atomically (the code shares no other mutable state: safe Rust without interior mutability elsewhere)");
    let thorough = c.thorough();
    // (film, radius, samples, threads, preemptions)
    let mut cfgs = vec![
        (33, 1, 1.5, 1, 1, 9), (33, 1, 1.5, 2, 2, 9), (17, 17, 1.0, 1, 2, 9), (33, 1, 1.5, 1, 3, 4), (17, 1, 2.0, 2, 4, 2), (1, 1, 0.5, 2, 3, 9), (49, 1, 0.5, 1, 2, 9),
    ];
    if thorough {
        cfgs.extend([(33, 17, 1.0, 1, 2, 9), (33, 1, 1.5, 2, 3, 9), (17, 17, 2.0, 1, 3, 3), (17, 1, 2.0, 2, 4, 3), (17, 1, 2.0, 2, 5, 2), (33, 33, 1.0, 1, 2, 4)]);
    }
    for (w, h, r, spp, threads, bound) in cfgs {
        let want = match image_bytes(|| wall_render(w, h, r, spp, 1)) {
            Ok(b) => b,
            Err(e) => {
                c.case("reference", "a render with one worker", |cx| cx.fail(format!("{}x{}: {}", w, h, e)));
                continue;
            }
        };
        let mut cfg = Explore::new(bound);
        if thorough {
            cfg.max_execs = 3_000_000;
            cfg.time = std::time::Duration::from_secs(400);
        } else {
            cfg.max_execs = 60_000;
            cfg.time = std::time::Duration::from_secs(25);
        }
        c.explore(&format!("exact {}x{} r{} spp{} {}w p{}", w, h, r, spp, threads, bound), "all schedules of the workers; the image must be identical to that of one worker (all sums exact); non-trivial: at least two workers",
            &cfg, |_| (), |_| wall_render(w, h, r, spp, threads as u8), |e, cx| {
                if e.tasks > 2 { cx.nontrivial(); }
                cx.count("with scheduling choices", (e.trace.len() > 0) as u64);
                match &e.result {
                    Err(_) => cx.fail(format!("the render failed: {}", e.panic_text().unwrap())),
                    Ok(()) => {
                        let got = e.world.fs.lock().unwrap().get(OUT);
                        cx.check(got.as_deref() == Some(&want[..]), || format!("the image of {} workers differs from that of one: {}", threads, diff(&want, got)));
                    }
                }
                cx.sample(|| format!("{} tasks, {} operations, schedule {:?}", e.tasks, e.ops, e.trace.iter().map(|c| c.chosen).collect::<Vec<_>>()));
            });
    }
    let mut lit = vec![(18, 2, 1, 2, 1), (18, 18, 1, 3, 1)];
    if thorough {
        lit = vec![(18, 2, 2, 2, 3), (18, 18, 2, 3, 2), (34, 2, 1, 4, 2)];
    }
    for (w, h, spp, threads, bound) in lit {
        let want = image_of(|| lit_render(w, h, spp, 1));
        let want = match want {
            Ok(p) => p,
            Err(e) => {
                c.case("reference", "a render with one worker", |cx| cx.fail(e.clone()));
                continue;
            }
        };
        let mut cfg = Explore::new(bound);
        cfg.max_execs = if thorough { 300_000 } else { 6_000 };
        cfg.time = std::time::Duration::from_secs(if thorough { 400 } else { 20 });
        c.explore(&format!("path traced {}x{} spp{} {}w p{}", w, h, spp, threads, bound), "all schedules; every channel within 1 of the image of one worker (rounding of sums); non-trivial: at least two workers",
            &cfg, |_| (), |_| lit_render(w, h, spp, threads as u8), |e, cx| {
                if e.tasks > 2 { cx.nontrivial(); }
                if let Some(p) = e.panic_text() {
                    cx.fail(format!("the render failed: {}", p));
                    return;
                }
                let got = e.world.fs.lock().unwrap().get(OUT);
                match got.ok_or("no image".to_string()).and_then(|d| parse_ppm(&d)) {
                    Err(m) => cx.fail(m),
                    Ok(g) => {
                        let far = (0..want.px.len().max(g.px.len())).find(|&k| g.px.get(k).map_or(true, |a| want.px.get(k).map_or(true, |b| (0..3).any(|i| a[i].abs_diff(b[i]) > 1))));
                        cx.check(far.is_none(), || { let k = far.unwrap(); format!("pixel {} is {:?}, with one worker {:?}", k, g.px.get(k), want.px.get(k)) });
                    }
                }
                cx.sample(|| format!("{} tasks, {} operations", e.tasks, e.ops));
            });
    }
    // larger films, every worker count of a set, two extreme schedules
    let films = [(150u32, 150u32), (300, 40), (40, 300), (129, 3), (16, 16), (15, 257)];
    let counts = [2u8, 3, 4, 5, 7, 8, 16];
    c.family("larger films", "6 films with up to 100 tiles, radii 0.5 and 2, 1 and 2 samples, 2..=16 workers, two schedules: no preemption at all, and a preemption at every possible point; non-trivial: all", (films.len() * counts.len() * 8) as u64, |i, cx| {
        let mut d = Digits(i);
        let ((w, h), n, r, spp, alternate) = (*d.of(&films), *d.of(&counts), *d.of(&[0.5f32, 2.]), *d.of(&[1u32, 2]), d.take(2) == 1);
        cx.nontrivial();
        let want = image_bytes(|| wall_render(w, h, r, spp, 1)).unwrap_or_default();
        let e = mc::sched::run(if alternate { vec![1; 1 << 16] } else { vec![] }, 10_000_000, false, |_| (), |_| wall_render(w, h, r, spp, n));
        let what = format!("{} x {} radius {} with {} workers, {}", w, h, r, n, if alternate { "preempted at every point" } else { "never preempted" });
        match e.panic_text() {
            Some(p) => cx.fail(format!("{}: the render failed: {}", what, p)),
            None => {
                let got = e.world.fs.lock().unwrap().get(OUT);
                cx.check(got.as_deref() == Some(&want[..]), || format!("{}: the image differs from that of one worker: {}", what, diff(&want, got)));
            }
        }
        cx.sample(|| format!("{}: {} operations", what, e.ops));
    });
    // every worker count, one schedule each
    let want = image_bytes(|| wall_render(40, 20, 1.5, 2, 1)).unwrap_or_default();
    c.family("worker counts", "1..=64 and 255 workers on 6 tiles, the schedule that lets every worker run as far as it can; non-trivial: more workers than tiles", 65, |i, cx| {
        let n = if i == 64 { 255 } else { i as u8 + 1 };
        if n > 6 { cx.nontrivial(); }
        match image_bytes(|| wall_render(40, 20, 1.5, 2, n)) {
            Ok(b) => { cx.check(b == want, || format!("the image of {} workers differs from that of one: {}", n, diff(&want, Some(b.clone())))); }
            Err(e) => cx.fail(format!("{} workers: {}", n, e)),
        }
        cx.sample(|| format!("{} workers", n));
    });
    c.finish();
}

fn image_bytes(f: impl FnOnce()) -> Result<Vec<u8>, String> {
    let e = mc::single(|_| (), |_| f());
    if let Some(p) = e.panic_text() {
        return Err(format!("the render failed: {}", p));
    }
    let d = e.world.fs.lock().unwrap().get(OUT);
    d.ok_or_else(|| "no image was written".to_string())
}

fn diff(want: &[u8], got: Option<Vec<u8>>) -> String {
    match (parse_ppm(want), got.map(|g| parse_ppm(&g))) {
        (_, None) => "no image".into(),
        (_, Some(Err(e))) => e,
        (Ok(a), Some(Ok(b))) => match (0..a.px.len()).find(|&k| b.px.get(k) != a.px.get(k)) {
            Some(k) => format!("pixel ({}, {}) is {:?} instead of {:?}", k % a.w, k / a.w, b.px.get(k), a.px[k]),
            None => "differs".into(),
        },
        (Err(e), _) => e,
    }
}
#[allow(unused)]
fn _f(f: &dyn Filter) {}
