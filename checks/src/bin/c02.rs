//! C02: every pixel sample is taken once and counted once.
use std::collections::BTreeMap;
use std::sync::Arc;
use checks::*;
use mc::{Check, Digits, Explore, Level};
use pt::api::*;
use pt::sampler::Sampler;
use pt::vector::Point2i;

fn taps(x: f32, y: f32) -> f32 { 1. / ((1. + x) * (1. + 0.5 * y)) }

/// Radiance of each sample position: an exact 8-bit value that differs between neighbours.
fn emission(p: Point2f) -> [f64; 3] {
    let h = mc::num::mix((((p.x * 8.).floor() as i64 as u64) << 24) ^ ((p.y * 8.).floor() as i64 as u64 & 0xffffff));
    [(h & 255) as f64 / 256., (h >> 8 & 255) as f64 / 256., (h >> 16 & 255) as f64 / 256.]
}
fn offset(p: Point2i, k: u32, call: u32) -> f32 {
    let h = mc::num::mix((p.x as u64 & 0xffff) << 32 | (p.y as u64 & 0xffff) << 16 | (k as u64) << 8 | call as u64);
    // away from the borders of the filter table's cells
    (h % 8) as f32 / 8. + 0.0703125
}

fn sampler(spp: u32) -> FnSampler { FnSampler::new(spp, offset) }

/// The samples a complete render takes, by definition.
fn all_samples(w: i32, h: i32, r: f64, spp: u32) -> Vec<([f64; 2], [f64; 3])> {
    let (x0, x1) = ((0.5 - r).floor() as i32, (w as f64 - 0.5 + r).ceil() as i32);
    let (y0, y1) = ((0.5 - r).floor() as i32, (h as f64 - 0.5 + r).ceil() as i32);
    let mut v = Vec::new();
    for y in y0..y1 {
        for x in x0..x1 {
            for k in 0..spp {
                let p = Point2i::new(x, y);
                let s = Point2f::new(x as f32 + offset(p, k, 0), y as f32 + offset(p, k, 1));
                v.push(([s.x as f64, s.y as f64], emission(s)));
            }
        }
    }
    v
}

type Log = BTreeMap<(i32, i32, u32), u32>;

fn judge(w: u32, h: u32, r: f32, spp: u32, log: &Log, img: Result<Ppm, String>) -> Result<(), String> {
    let (x0, x1) = ((0.5 - r).floor() as i32, (w as f32 - 0.5 + r).ceil() as i32);
    let (y0, y1) = ((0.5 - r).floor() as i32, (h as f32 - 0.5 + r).ceil() as i32);
    for y in y0..y1 {
        for x in x0..x1 {
            for k in 0..spp {
                match log.get(&(x, y, k)) {
                    Some(1) => (),
                    n => return Err(format!("sample {} of pixel ({}, {}) was taken {} times", k, x, y, n.unwrap_or(&0))),
                }
            }
        }
    }
    let total = ((x1 - x0) * (y1 - y0)) as usize * spp as usize;
    if log.len() != total {
        let extra = log.keys().find(|(x, y, k)| *x < x0 || *x >= x1 || *y < y0 || *y >= y1 || *k >= spp);
        return Err(format!("a sample outside the sample region was taken: {:?}", extra));
    }
    let img = img?;
    if (img.w, img.h) != (w as usize, h as usize) {
        return Err(format!("the image is {} x {}", img.w, img.h));
    }
    let ideal = ideal_film(w as usize, h as usize, &FnFilter { radius: r, f: taps }, &all_samples(w as i32, h as i32, r as f64, spp));
    for (k, (_, mean)) in ideal.iter().enumerate() {
        for c in 0..3 {
            if !channel_ok(img.px[k][c], mean[c] - 1e-5, mean[c] + 1e-5) {
                return Err(format!("pixel ({}, {}) channel {} is {}, all samples counted once give {:.3}", k % w as usize, k / w as usize, c, img.px[k][c], srgb255(mean[c])));
            }
        }
    }
    Ok(())
}

fn render(w: u32, h: u32, r: f32, spp: u32, threads: u8) -> Log {
    let (s, log) = sampler(spp).logged();
    let film = Film::new(Point2u::new(w, h), FnFilter { radius: r, f: taps });
    let scene = wall_scene(Arc::new(|p| { let e = emission(p); Spectrum::new(e[0] as f32, e[1] as f32, e[2] as f32) }));
    Integrator::new(scene, s, RasterCamera, film).render(threads);
    let l = log.lock().unwrap().clone();
    l
}

fn main() {
    let mut c = Check::new("C02", Level::ModelChecking);
    c.assume("operations between two synchronisation operations run atomically");
    // the work units of every film
    let radii: Vec<f32> = vec![0.25, 0.5, 0.75, 1., 1.25, 1.5, 2., 2.5, 3., 4., 7.5, 8.];
    let m = c.pick(50u64, 100);
    c.family("work units", "every resolution 0..=m by 0..=m and radius: the tiles cut the sample region into disjoint parts that cover it, and iterating a tile visits its pixels once; non-trivial: more than one tile", (m + 1) * (m + 1) * radii.len() as u64, |i, cx| {
        let mut d = Digits(i);
        let (w, h, r) = (d.take(m as usize + 1) as u32, d.take(m as usize + 1) as u32, *d.of(&radii));
        units(w, h, r, cx);
    });
    let edges = [127u32, 128, 129, 255, 256, 257, 4095, 4096, 4097].iter().flat_map(|t| [t * 16 - 1, t * 16, t * 16 + 1]);
    let long: Vec<(u32, u32)> = (1..=c.pick(700, 5000)).chain(edges).flat_map(|n| [(n, 1), (1, n)]).collect();
    c.family("work units of long films", "every n x 1 and 1 x n up to the bound, radii 0.5, 2 and 16; non-trivial: more than one tile", long.len() as u64 * 3, |i, cx| {
        let mut d = Digits(i);
        let (w, h) = *d.of(&long);
        units(w, h, *d.of(&[0.5, 2., 16.]), cx);
    });
    // complete renders by one worker
    let sizes = c.pick(20u64, 36);
    let rr = [0.5f32, 1., 1.5, 2., 3.];
    c.family("sequential renders", "every resolution 1..=m by {1, 2, 5, 15, 16, 17} and back, radius and 1..=3 samples: the samples taken and the image; non-trivial: more than one tile", sizes * 6 * 2 * rr.len() as u64 * 3, |i, cx| {
        let mut d = Digits(i);
        let (a, b, flip, r, spp) = (d.take(sizes as usize) as u32 + 1, *d.of(&[1u32, 2, 5, 15, 16, 17]), d.take(2), *d.of(&rr), d.take(3) as u32 + 1);
        let (w, h) = if flip == 0 { (a, b) } else { (b, a) };
        if w as f32 + 2. * r > 16. || h as f32 + 2. * r > 16. { cx.nontrivial(); }
        one(w, h, r, spp, 1, cx);
    });
    let mut large = vec![(300u32, 300u32), (2, 33000), (70000, 1), (1, 66000), (4097, 17), (17, 4097)];
    if c.thorough() { large.extend([(1000, 1100), (257, 256), (131_100, 1), (1, 131_100)]); }
    c.family("large films", "films of up to 90000 (thorough 1.1 million) pixels rendered by 1 and 3 workers; non-trivial: all", large.len() as u64 * 2, |i, cx| {
        let mut d = Digits(i);
        let ((w, h), n) = (*d.of(&large), [1, 3][d.take(2)]);
        cx.nontrivial();
        one(w, h, 1.5, 1, n, cx);
    });
    let spps: Vec<u32> = (1..=c.pick(40, 200)).chain([255, 256, 257, 1000, 1024, 1025, 4097]).collect();
    c.family("sample counts", "1..=n and up to 4097 samples per pixel; non-trivial: more than one", spps.len() as u64, |i, cx| {
        if spps[i as usize] > 1 { cx.nontrivial(); }
        one(3, 2, 1., spps[i as usize], 1, cx);
    });
    c.family("worker counts", "1..=255 workers; non-trivial: more workers than tiles", 255, |i, cx| {
        let n = i as u8 + 1;
        if n > 4 { cx.nontrivial(); }
        one(17, 17, 1., 1, n, cx);
    });
    // the samplers of the code count up to what was asked for, pixel after pixel, also on a copy made on the way
    let asked: Vec<u32> = (1..=c.pick(300, 3000)).chain([511, 512, 513, 1000, 1023, 1024, 1025, 4096, 10000, 32767, 32768, 32769, 65535, 65536, 65537, 100_000, 131_073]).collect();
    let films = [(1, 1), (2, 2), (5, 4), (40, 30), (128, 128), (300, 200)];
    c.family("samplers", "the random sampler, and the Halton sampler for 6 films, asked for 1..=n and up to 131073 samples: three pixels in turn, on the sampler, on a copy of it, and with copying half way; non-trivial: more than one sample", asked.len() as u64 * 7, |i, cx| {
        let mut d = Digits(i);
        let (spp, kind) = (*d.of(&asked), d.take(7));
        if spp > 1 { cx.nontrivial(); }
        let what = || format!("{}, {} samples", if kind == 0 { "random".into() } else { format!("Halton for {:?}", films[kind - 1]) }, spp);
        // indices of the Halton sampler are 32 bit numbers
        if kind > 0 && spp as u64 * 128 * 243 >= 1 << 32 && films[kind - 1].0 > 40 { return; }
        let e = mc::single(|_| (), |_| if kind == 0 { count(pt::sampler_random::RandomSampler::new(spp), spp) } else {
            let (w, h) = films[kind - 1];
            count(pt::sampler_halton::HaltonSampler::new(spp, pt::bbox::BBox2i::new(Point2i::new(0, 0), Point2i::new(w, h))), spp)
        });
        cx.evals(9);
        match e.result {
            Ok(None) => (),
            Ok(Some((round, n))) => cx.fail(format!("{}: {} samples in round {}", what(), n, round)),
            Err(_) => cx.fail(format!("{}: {}", what(), e.panic_text().unwrap())),
        }
        cx.sample(|| what());
    });
    // all schedules
    let mut cfgs = vec![(33u32, 1u32, 1.5f32, 2u32, 2u8, 9u32), (17, 17, 1., 1, 2, 9), (33, 1, 1.5, 1, 3, 4), (17, 1, 2., 1, 4, 2), (2, 2, 0.5, 2, 3, 9)];
    if c.thorough() {
        cfgs.extend([(33, 17, 1., 1, 2, 9), (33, 1, 1.5, 1, 3, 9), (17, 1, 2., 1, 4, 3), (49, 1, 1., 1, 3, 3), (17, 17, 2., 1, 5, 2)]);
    }
    for (w, h, r, spp, threads, bound) in cfgs {
        let mut cfg = Explore::new(bound);
        cfg.max_execs = c.pick(40_000, 3_000_000);
        cfg.time = std::time::Duration::from_secs(c.pick(20, 400));
        c.explore(&format!("schedules {}x{} r{} spp{} {}w p{}", w, h, r, spp, threads, bound), "all schedules of the workers: the samples taken and the image; non-trivial: at least two workers took part",
            &cfg, |_| (), |_| render(w, h, r, spp, threads), |e, cx| {
                if e.tasks > 2 { cx.nontrivial(); }
                match &e.result {
                    Err(_) => cx.fail(format!("the render failed: {}", e.panic_text().unwrap())),
                    Ok(log) => {
                        let img = e.world.fs.lock().unwrap().get(OUT).ok_or("no image".to_string()).and_then(|d| parse_ppm(&d));
                        if let Err(m) = judge(w, h, r, spp, log, img) { cx.fail(m); }
                    }
                }
                cx.sample(|| format!("{} operations, schedule {:?}", e.ops, e.trace.iter().map(|c| c.chosen).collect::<Vec<_>>()));
            });
    }
    c.finish();
}

/// The number of samples of the first round in which it is not `spp`.
fn count<S: Sampler>(mut s: S, spp: u32) -> Option<(usize, u32)> {
    for round in 0..9 {
        if round == 3 || round == 6 { s = s.clone(); }
        s.start_pixel(Point2i::new(round as i32 * 3 % 7, round as i32 % 2));
        let mut n = 0;
        loop {
            n += 1;
            let _ = s.get_camera_sample(Point2i::new(0, 0));
            if round >= 6 && n == spp / 2 { s = s.clone(); }
            if n > spp || !s.start_next_sample() { break; }
        }
        if n != spp { return Some((round, n)); }
    }
    None
}

fn one(w: u32, h: u32, r: f32, spp: u32, threads: u8, cx: &mut mc::Cx) {
    let e = mc::single(|_| (), |_| render(w, h, r, spp, threads));
    let what = format!("{} x {}, radius {}, {} samples, {} workers", w, h, r, spp, threads);
    match &e.result {
        Err(_) => cx.fail(format!("{}: the render failed: {}", what, e.panic_text().unwrap())),
        Ok(log) => {
            let img = e.world.fs.lock().unwrap().get(OUT).ok_or("no image".to_string()).and_then(|d| parse_ppm(&d));
            if let Err(m) = judge(w, h, r, spp, log, img) { cx.fail(format!("{}: {}", what, m)); }
        }
    }
    cx.sample(|| what.clone());
}

fn units(w: u32, h: u32, r: f32, cx: &mut mc::Cx) {
    let film = Film::new(Point2u::new(w, h), box_filter(r));
    let b = film.sample_bbox();
    let (x0, x1) = ((0.5 - r).floor() as i32, (w as f32 - 0.5 + r).ceil() as i32);
    let (y0, y1) = ((0.5 - r).floor() as i32, (h as f32 - 0.5 + r).ceil() as i32);
    let what = format!("{} x {}, radius {}", w, h, r);
    if w > 0 && h > 0 {
        cx.check((b.min.x, b.min.y, b.max.x, b.max.y) == (x0, y0, x1, y1), || format!("{}: sample region {:?}..{:?}", what, b.min, b.max));
    }
    let (w, h) = ((b.max.x - b.min.x) as usize, (b.max.y - b.min.y) as usize);
    let mut seen = vec![0u8; w * h];
    let mut tiles = 0;
    for t in film.iter() {
        tiles += 1;
        for p in t.iter() {
            let (x, y) = (p.x - b.min.x, p.y - b.min.y);
            if x < 0 || y < 0 || x as usize >= w || y as usize >= h {
                cx.fail(format!("{}: work unit {:?}..{:?} contains {:?}, outside the sample region", what, t.min, t.max, p));
                return;
            }
            seen[y as usize * w + x as usize] += 1;
        }
    }
    if tiles > 1 { cx.nontrivial(); }
    cx.evals((w * h) as u64);
    if let Some(k) = seen.iter().position(|n| *n != 1) {
        cx.fail(format!("{}: pixel ({}, {}) is in {} work units", what, b.min.x + (k % w) as i32, b.min.y + (k / w) as i32, seen[k]));
    }
    cx.sample(|| format!("{}: {} tiles", what, tiles));
}
