//! C03: a failed worker is never mistaken for a finished render.
use std::sync::atomic::{AtomicU32, Ordering::SeqCst};
use std::sync::Arc;
use checks::*;
use mc::{sched, Check, Digits, Explore, Level, World};
use pt::api::*;
use pt::camera::{Camera, CameraSample};
use pt::ray::Ray;

/// A camera that may fail.
#[derive(Clone)]
struct HookCamera(Arc<dyn Fn() + Send + Sync>, #[allow(dead_code)] AtEnd);
/// Calls the hook when a worker lets go of it.
#[derive(Clone)]
struct AtEnd(Arc<dyn Fn(&'static str) + Send + Sync>);
impl Drop for AtEnd {
    fn drop(&mut self) {
        if sched::task_id() != 0 && !std::thread::panicking() { (self.0)("end"); }
    }
}
impl Camera for HookCamera {
    fn generate_ray(&self, s: &CameraSample) -> Ray {
        (self.0)();
        RasterCamera.generate_ray(s)
    }
}

const OLD: &[u8] = b"an earlier image";

/// Render with every call of sampler, camera and shape going through `hook`.
fn render(w: u32, h: u32, r: f32, spp: u32, threads: u8, hook: Arc<dyn Fn(&'static str) + Send + Sync>) {
    let mut s = FnSampler::new(spp, |_, _, _| 0.25);
    let k = hook.clone();
    s.hook = Some(Arc::new(move || k("sampler")));
    let k = hook.clone();
    let camera = HookCamera(Arc::new(move || k("camera")), AtEnd(hook.clone()));
    let k = hook.clone();
    let scene = wall_scene(Arc::new(move |_| { k("shape"); Spectrum::from(0.5) }));
    let film = Film::new(Point2u::new(w, h), box_filter(r));
    Integrator::new(scene, s, camera, film).render(threads);
}

fn setup(old: bool) -> impl Fn(&World) + Sync {
    move |w: &World| if old { w.fs.lock().unwrap().put(OUT, OLD) }
}

/// The files must be as before, and the call must have failed.
fn judge<R>(e: &sched::Execution<R>, old: bool, injected: bool, what: &dyn Fn() -> String, cx: &mut mc::Cx) {
    let fs = e.world.fs.lock().unwrap();
    let files = fs.snapshot();
    if injected {
        cx.nontrivial();
        if let Some(a) = &e.abort {
            cx.fail(format!("{}: the call does not end: {:?}", what(), a));
            return;
        }
        if e.result.is_ok() {
            cx.fail(format!("{}: the render returned normally", what()));
            return;
        }
        let ok = if old { files.len() == 1 && files.get(OUT).map(|d| &d[..]) == Some(OLD) } else { files.is_empty() };
        cx.check(ok, || format!("{}: the files afterwards are {:?}", what(), files.iter().map(|(k, v)| (k.clone(), v.len())).collect::<Vec<_>>()));
    } else {
        if e.result.is_err() {
            cx.fail(format!("{}: nothing was injected but the render failed: {}", what(), e.panic_text().unwrap_or_default()));
            return;
        }
        let img = files.get(OUT).ok_or("no image".to_string()).and_then(|d| parse_ppm(d));
        if let Err(m) = img { cx.fail(format!("{}: {}", what(), m)); }
    }
}

fn main() {
    let mut c = Check::new("C03", Level::ModelChecking);
    c.assume("failures are injected where the worker calls its environment (sampler, camera, shapes; also when a worker drops its camera); operations between two synchronisation operations run atomically");
    // sequentially: every call fails once, every combination of workers, prior file
    let films = [(2u32, 2u32, 0.5f32, 1u32), (2, 1, 1., 2), (17, 1, 0.5, 1), (17, 17, 0.5, 1)];
    for (w, h, r, spp) in films {
        let n = Arc::new(AtomicU32::new(0));
        let m = n.clone();
        let e = mc::single(|_| (), |_| render(w, h, r, spp, 1, Arc::new(move |_| { m.fetch_add(1, SeqCst); })));
        let total = n.load(SeqCst);
        if e.result.is_err() || total == 0 {
            let msg = format!("failed: {:?}", e.panic_text());
            c.case("plain render", "a render without failures", |cx| cx.fail(msg.clone()));
            continue;
        }
        let total = if c.thorough() { total } else { total.min(400) };
        c.family(&format!("one failure {}x{} r{} spp{}", w, h, r, spp), "the k-th call a worker makes fails, for every k, with 1..=4 workers, with and without an earlier image, never or always preempting; non-trivial: the failure occurred", total as u64 * 16, |i, cx| {
            let mut d = Digits(i);
            let (threads, old, alternate, k) = (d.take(4) as u8 + 1, d.take(2) == 1, d.take(2) == 1, d.take(total as usize) as u32);
            let count = Arc::new(AtomicU32::new(0));
            let hit = Arc::new(AtomicU32::new(0));
            let (c2, h2) = (count.clone(), hit.clone());
            let hook: Arc<dyn Fn(&'static str) + Send + Sync> = Arc::new(move |what| {
                if c2.fetch_add(1, SeqCst) == k {
                    h2.fetch_add(1, SeqCst);
                    panic!("injected into {}", what);
                }
            });
            let e = sched::run(if alternate { vec![1; 1 << 12] } else { vec![] }, 1_000_000, false, setup(old), |_| render(w, h, r, spp, threads, hook.clone()));
            judge(&e, old, hit.load(SeqCst) > 0, &|| format!("{} workers, call {} fails{}", threads, k, if old { ", over an earlier image" } else { "" }), cx);
            cx.sample(|| format!("{} workers, call {} fails: {:?}", threads, k, e.panic_text()));
        });
    }
    // what the panic carries does not matter
    c.family("kinds of panics", "one failure at each of the first 40 calls, carrying a string constant, a string, a number, a boxed error or nothing, with 1..=4 workers, never or always preempting; non-trivial: the failure occurred", 40 * 5 * 4 * 2, |i, cx| {
        let mut d = Digits(i);
        let (k, kind, threads, alternate) = (d.take(40) as u32, d.take(5), d.take(4) as u8 + 1, d.take(2) == 1);
        let (count, hit) = (AtomicU32::new(0), Arc::new(AtomicU32::new(0)));
        let h2 = hit.clone();
        let hook: Arc<dyn Fn(&'static str) + Send + Sync> = Arc::new(move |_| {
            if count.fetch_add(1, SeqCst) == k {
                h2.fetch_add(1, SeqCst);
                match kind {
                    0 => panic!("a constant"),
                    1 => panic!("text {}", k),
                    2 => std::panic::panic_any(k),
                    3 => std::panic::panic_any(Box::<dyn std::error::Error + Send + Sync>::from("an error")),
                    _ => std::panic::resume_unwind(Box::new(())),
                }
            }
        });
        let e = sched::run(if alternate { vec![1; 1 << 12] } else { vec![] }, 1_000_000, false, setup(true), |_| render(17, 1, 0.5, 1, threads, hook.clone()));
        judge(&e, true, hit.load(SeqCst) > 0, &|| format!("{} workers, call {} fails with a panic of kind {}", threads, k, kind), cx);
    });
    // each worker of many
    let crowd: Vec<(u8, usize)> = (5..=17u8).chain([31, 32, 33, 64, 100, 128, 129, 255]).flat_map(|n| (1..=n as usize).filter(move |w| n <= 17 || w.count_ones() == 1 || (w + 1).count_ones() == 1 || w + 1 >= n as usize).map(move |w| (n, w))).collect();
    c.family("many workers", "5 to 255 workers, four work units for each, running in a mixed order, one of them failing at its first call, for every one (more than 17: those numbered 2^k or 2^k - 1 and the last two); non-trivial: the failure occurred", crowd.len() as u64, |i, cx| {
        let (n, w) = crowd[i as usize];
        let hit = Arc::new(AtomicU32::new(0));
        let h2 = hit.clone();
        let hook: Arc<dyn Fn(&'static str) + Send + Sync> = Arc::new(move |_| if sched::task_id() == w && h2.fetch_add(1, SeqCst) == 0 { panic!("worker {}", w); });
        let e = sched::run((0..1u64 << 13).map(|k| sched::WRAP + (mc::num::mix(k) & 0xffff) as u32).collect(), 1_000_000, false, setup(true), |_| render(64 * n as u32, 1, 0.5, 1, n, hook.clone()));
        judge(&e, true, hit.load(SeqCst) > 0, &|| format!("worker {} of {} fails", w, n), cx);
    });
    // all schedules, with up to two failures anywhere
    // (film, radius, workers, failures, preemptions)
    let mut cfgs = vec![(1u32, 1u32, 0.5f32, 2u8, 2u32, 9u32), (17, 1, 0.5, 2, 1, 2), (17, 1, 0.5, 3, 1, 1), (3, 1, 0.5, 2, 2, 3), (1, 1, 0.5, 3, 3, 3)];
    if c.thorough() {
        cfgs.extend([(17, 1, 0.5, 2, 1, 9), (17, 1, 0.5, 3, 1, 3), (17, 1, 0.5, 2, 2, 2), (33, 1, 0.5, 2, 1, 3), (17, 17, 0.5, 2, 1, 1), (33, 1, 0.5, 3, 1, 1), (17, 1, 0.5, 4, 1, 1)]);
    }
    for (w, h, r, threads, failures, bound) in cfgs {
        let mut cfg = Explore::new(bound);
        cfg.must_terminate = false;
        cfg.max_execs = c.pick(60_000, 3_000_000);
        cfg.time = std::time::Duration::from_secs(c.pick(20, 400));
        c.explore(&format!("schedules {}x{} {}w {}f p{}", w, h, threads, failures, bound), "all schedules, with up to f failures at any calls of any workers; non-trivial: at least one failure", &cfg, setup(true), |_| {
            let left = Arc::new(AtomicU32::new(failures));
            let hit = Arc::new(AtomicU32::new(0));
            let h2 = hit.clone();
            let hook: Arc<dyn Fn(&'static str) + Send + Sync> = Arc::new(move |what| {
                if left.load(SeqCst) > 0 && sched::choose(2) == 1 {
                    left.fetch_sub(1, SeqCst);
                    h2.fetch_add(1, SeqCst);
                    panic!("injected into {}", what);
                }
            });
            HITS.with(|h| *h.borrow_mut() = Some(hit));
            render(w, h, r, 1, threads, hook)
        }, |e, cx| {
            let hit = HITS.with(|h| h.borrow().as_ref().map_or(0, |h| h.load(SeqCst)));
            if hit >= 2 { cx.count("with two or more failures", 1); }
            judge(e, true, hit > 0, &|| format!("{} workers, {} failures", threads, hit), cx);
            cx.sample(|| format!("{} failures, {} operations: {:?}", hit, e.ops, e.panic_text()));
        });
    }
    c.finish();
}

thread_local! {
    // task 0 of an execution runs on the explorer's thread, which also judges it
    static HITS: std::cell::RefCell<Option<Arc<AtomicU32>>> = const { std::cell::RefCell::new(None) };
}
