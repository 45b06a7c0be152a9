//! C07: an invalid radiance sample harms nothing but itself.
use checks::*;
use mc::{Check, Cx, Digits, Explore, Level};
use pt::api::*;
use std::collections::{BTreeMap, BTreeSet};
use std::sync::{Arc, Mutex};

const N: f32 = f32::NAN;
const I: f32 = f32::INFINITY;
/// Radiances; the first VALID of them are valid.
const KINDS: [[f32; 3]; 24] = [
    [0.25, 0.5, 0.75], [0., 0., 0.], [1., 0., 1e30], [-0., 0.125, -0.], [1e-40, 2., 0.5], [3e38, 2e38, 2.5e38], [0., 0., -0.],
    [N, 0.5, 0.5], [0.5, N, 0.5], [0.5, 0.5, N], [I, 0.5, 0.5], [0.5, I, 0.5], [0.5, 0.5, I],
    [-I, 0.5, 0.5], [0.5, -I, 0.5], [0.5, 0.5, -I], [-1., 0.5, 0.5], [0.5, -1., 0.5], [0.5, 0.5, -1.],
    [-1e-30, 0.5, 0.5], [0.5, 0.5, -1e-40], [N, N, N], [I, -I, N], [-N, 0.5, 0.5],
];
const VALID: usize = 7;

/// Sample k of pixel (x, y) lies at this offset within it.
fn off(k: u32, call: u32) -> f32 { [[0.25, 0.75], [0.625, 0.375], [0.5, 0.125]][k as usize % 3][call as usize % 2] as f32 + 0.0078125 }

fn taps(x: f32, y: f32) -> f32 { 1. / ((1. + x) * (1. + 0.5 * y)) }

/// Which kind a sample has.
type Assign = Arc<dyn Fn(i32, i32, u32) -> usize + Send + Sync>;

fn region(w: u32, h: u32, r: f32) -> Vec<(i32, i32)> {
    let (lo, hi) = ((0.5 - r).floor() as i32, |n: u32| (n as f32 - 0.5 + r).ceil() as i32);
    (lo..hi(h)).flat_map(|y| (lo..hi(w)).map(move |x| (x, y))).collect()
}

fn render(w: u32, h: u32, r: f32, spp: u32, threads: u8, assign: Assign) -> BTreeMap<(i32, i32, u32), u32> {
    let (s, log) = FnSampler::new(spp, |_, k, c| if c < 2 { off(k, c) } else { 0.5 }).logged();
    let seen = Mutex::new(BTreeSet::new());
    let scene = wall_scene(Arc::new(move |p| {
        let (x, y) = (p.x.floor(), p.y.floor());
        // the sample is recognised by its position
        let k = (0..spp).min_by_key(|k| ((p.x - x - off(*k, 0)).abs() * 1e4) as u32).unwrap();
        let kind = assign(x as i32, y as i32, k);
        // whoever asks again about an invalid sample gets a bright answer, which must not be used
        let v = if kind >= VALID && !seen.lock().unwrap().insert((x as i32, y as i32, k)) { [7., 5., 3.] } else { KINDS[kind] };
        Spectrum::new(v[0], v[1], v[2])
    }));
    Integrator::new(scene, s, RasterCamera, Film::new(Point2u::new(w, h), FnFilter { radius: r, f: taps })).render(threads);
    let l = log.lock().unwrap().clone();
    l
}

fn judge(w: u32, h: u32, r: f32, spp: u32, assign: &Assign, log: &BTreeMap<(i32, i32, u32), u32>, img: Result<Ppm, String>) -> Result<(), String> {
    let px = region(w, h, r);
    for (x, y) in px.iter() {
        for k in 0..spp {
            if log.get(&(*x, *y, k)) != Some(&1) {
                return Err(format!("sample {} of pixel ({}, {}) was taken {:?} times", k, x, y, log.get(&(*x, *y, k))));
            }
        }
    }
    let img = img?;
    let samples: Vec<([f64; 2], [f64; 3])> = px.iter().flat_map(|(x, y)| (0..spp).map(move |k| (*x, *y, k))).filter(|(x, y, k)| assign(*x, *y, *k) < VALID)
        .map(|(x, y, k)| ([(x as f32 + off(k, 0)) as f64, (y as f32 + off(k, 1)) as f64], KINDS[assign(x, y, k)].map(|v| v as f64))).collect();
    let ideal = ideal_film(w as usize, h as usize, &FnFilter { radius: r, f: taps }, &samples);
    for (k, (_, mean)) in ideal.iter().enumerate() {
        for c in 0..3 {
            if !channel_ok(img.px[k][c], mean[c] - 1e-5, mean[c] + 1e-5) {
                return Err(format!("pixel ({}, {}) channel {} is {}, the valid samples give {:.3}", k % w as usize, k / w as usize, c, img.px[k][c], srgb255(mean[c])));
            }
        }
    }
    Ok(())
}

fn one(w: u32, h: u32, r: f32, spp: u32, threads: u8, assign: Assign, what: &dyn Fn() -> String, cx: &mut Cx) {
    let a = assign.clone();
    let e = mc::single(|_| (), |_| render(w, h, r, spp, threads, a));
    match &e.result {
        Err(_) => cx.fail(format!("{}: the render failed: {}", what(), e.panic_text().unwrap())),
        Ok(log) => {
            let img = e.world.fs.lock().unwrap().get(OUT).ok_or("no image".to_string()).and_then(|d| parse_ppm(&d));
            if let Err(m) = judge(w, h, r, spp, &assign, log, img) { cx.fail(format!("{}: {}", what(), m)); }
        }
    }
    cx.sample(|| what());
}

fn main() {
    let mut c = Check::new("C07", Level::Exploration);
    let n = KINDS.len() as u64;
    c.family("two pixels, two samples each", "every assignment of 24 radiances (7 valid, among them some whose components add up to more than the largest float, and zeros of either sign; 17 with an invalid component) to the 4 samples (quick: the last only the first nine); an invalid sample answers a second look with a bright value; non-trivial: an invalid sample", if c.thorough() { n.pow(4) } else { n.pow(3) * 9 }, |i, cx| {
        let mut d = Digits(i);
        let k: Vec<usize> = (0..4).map(|_| d.take(n as usize)).collect();
        if k.iter().any(|k| *k >= VALID) { cx.nontrivial(); }
        let kk = k.clone();
        one(2, 1, 0.5, 2, 1, Arc::new(move |x, _, s| kk[(x as usize % 2) * 2 + s as usize]), &|| format!("kinds {:?}", k), cx);
    });
    c.family("overlapping supports", "2 x 2 film, radius 1, 16 pixels sampled once: every subset of them invalid, each of 5 kinds in turn; non-trivial: an invalid sample", 1 << 16, |i, cx| {
        let (px, bad) = (region(2, 2, 1.), [7usize, 11, 13, 18, 22][(i % 5) as usize]);
        if i > 0 { cx.nontrivial(); }
        let p2 = px.clone();
        one(2, 2, 1., 1, 1, Arc::new(move |x, y, _| { let k = p2.iter().position(|p| *p == (x, y)).unwrap(); if i >> k & 1 == 1 { bad } else { k % VALID } }), &|| format!("invalid set {:#x} of kind {}", i, bad), cx);
    });
    let invalid = KINDS.len() - VALID;
    c.family("each sample of a larger film", "19 x 18 film in several work units, two samples per pixel, radius 1.5, two workers: each sample invalid in turn, kinds in turn; non-trivial: all", (region(19, 18, 1.5).len() * 2) as u64, |i, cx| {
        let px = region(19, 18, 1.5)[(i / 2) as usize];
        let bad = VALID + (i as usize * 7) % invalid;
        cx.nontrivial();
        one(19, 18, 1.5, 2, 2, Arc::new(move |x, y, k| if (x, y) == px && k as u64 == i % 2 { bad } else { (x + 2 * y + k as i32 + 40) as usize % VALID }), &|| format!("sample {} of pixel {:?} is of kind {}", i % 2, px, bad), cx);
    });
    c.family("all invalid", "every film 1..=6 by 1..=6 with only invalid samples of each kind; non-trivial: all", 36 * invalid as u64, |i, cx| {
        let mut d = Digits(i);
        let (w, h, bad) = (d.take(6) as u32 + 1, d.take(6) as u32 + 1, VALID + d.take(invalid));
        cx.nontrivial();
        one(w, h, 1., 2, 1, Arc::new(move |_, _, _| bad), &|| format!("{} x {} of kind {}", w, h, bad), cx);
    });
    let mut cfg = Explore::new(2);
    cfg.time = std::time::Duration::from_secs(30);
    for (w, threads) in [(17u32, 2u8), (17, 3)] {
        let assign: Assign = Arc::new(|x, y, k| ((x + 20) * 5 + (y + 20) * 3 + k as i32 * 2) as usize % 24);
        let a2 = assign.clone();
        c.explore(&format!("schedules {}w", threads), "17 x 1 film in two work units, kinds spread over the pixels, all schedules with at most two preemptions; non-trivial: more than one worker", &cfg, |_| (), move |_| render(w, 1, 0.5, 2, threads, a2.clone()), |e, cx| {
            if e.tasks > 2 { cx.nontrivial(); }
            match &e.result {
                Err(_) => cx.fail(format!("the render failed: {}", e.panic_text().unwrap())),
                Ok(log) => {
                    let img = e.world.fs.lock().unwrap().get(OUT).ok_or("no image".to_string()).and_then(|d| parse_ppm(&d));
                    if let Err(m) = judge(w, 1, 0.5, 2, &assign, log, img) { cx.fail(m); }
                }
            }
        });
    }
    c.finish();
}
