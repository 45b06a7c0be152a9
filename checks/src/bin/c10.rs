//! C10: the random sampler never hands out the same random number twice.
//! The random generator is a stand-in whose outputs carry their identity: two equal numbers are one number used twice.
use checks::*;
use mc::{Check, Cx, Digits, Explore, Level};
use pt::api::*;
use pt::sampler::Sampler;
use pt::vector::Point2i;
use std::collections::BTreeMap;
use std::sync::{Arc, Mutex};

/// What was drawn: (pixel, sample, draw) -> values.
type Log = Arc<Mutex<Vec<((i32, i32, u32, u32), f32)>>>;

/// Delegates to the sampler under test, recording everything it hands out.
#[derive(Clone)]
struct Rec {
    s: RandomSampler,
    log: Log,
    p: Point2i,
    k: u32,
    n: u32,
}

impl Rec {
    fn note(&mut self, v: f32) {
        self.log.lock().unwrap().push(((self.p.x, self.p.y, self.k, self.n), v));
        self.n += 1;
    }
}

impl Sampler for Rec {
    fn start_pixel(&mut self, p: Point2i) {
        self.p = p;
        self.k = 0;
        self.n = 0;
        self.s.start_pixel(p)
    }
    fn start_next_sample(&mut self) -> bool {
        self.k += 1;
        self.n = 0;
        self.s.start_next_sample()
    }
    fn get_1d(&mut self) -> f32 {
        let v = self.s.get_1d();
        self.note(v);
        v
    }
    fn get_2d(&mut self) -> Point2f {
        let v = self.s.get_2d();
        self.note(v.x);
        self.note(v.y);
        v
    }
}

fn judge(log: &[((i32, i32, u32, u32), f32)], samples: usize) -> Result<usize, String> {
    let mut seen: BTreeMap<u32, (i32, i32, u32, u32)> = BTreeMap::new();
    let mut first: BTreeMap<(i32, i32, u32), u32> = BTreeMap::new();
    for (at, v) in log {
        if !(*v >= 0. && *v < 1.) { return Err(format!("{:e} was handed out for {:?}", v, at)); }
        if let Some(o) = seen.insert(v.to_bits(), *at) {
            return Err(format!("the random number {} was handed out for (x, y, sample, number) {:?} and for {:?}", v, o, at));
        }
        *first.entry((at.0, at.1, at.2)).or_insert(0) += 1;
    }
    if first.len() != samples { return Err(format!("{} samples were taken instead of {}", first.len(), samples)); }
    Ok(log.len())
}

fn render(w: u32, h: u32, r: f32, spp: u32, threads: u8, lit: bool) -> Vec<((i32, i32, u32, u32), f32)> {
    let log: Log = Default::default();
    let s = Rec { s: RandomSampler::new(spp), log: log.clone(), p: Point2i::default(), k: 0, n: 0 };
    let film = Film::new(Point2u::new(w, h), box_filter(r));
    if lit {
        // a diffuse plane with a light: every sample consumes many numbers
        let mut b = Builder::new();
        let grey = Arc::new(LambertianReflectionMaterial::new(Arc::new(ConstantTexture::new(Spectrum::from(0.5)))));
        for z in [1.0, -1.0] {
            for (a, bb, c) in [([-99., -99., z], [99., -99., z], [99., 99., z]), ([99., 99., z], [-99., 99., z], [-99., -99., z])] {
                b.add_shape(Triangle::new([p3(a), p3(bb), p3(c)], None, false, grey.clone()));
            }
        }
        b.add_light(DistantLight::new(Spectrum::from(1.), Vector3f::new(0., 0., -1.)));
        Integrator::new(brute_scene(b), s, RasterCamera, film).render(threads);
    } else {
        Integrator::new(wall_scene(Arc::new(|_| Spectrum::from(0.5))), s, RasterCamera, film).render(threads);
    }
    let l = log.lock().unwrap().clone();
    l
}

fn region(w: u32, h: u32, r: f32) -> usize {
    let n = |k: u32| ((k as f32 - 0.5 + r).ceil() - (0.5 - r).floor()) as usize;
    n(w) * n(h)
}

fn words(c: &mut Check) {
    let len = c.pick(8u32, 10);
    for spp in [1u32, 2, 3] {
        c.family(&format!("operation words, {} samples", spp), "every word over: start pixel, next sample, draw one, draw two, clone to the other copy, switch copies; no number is handed out twice, and the sample count is right; non-trivial: two numbers drawn", 6u64.pow(len), |i, cx| {
            let e = mc::single(|_| (), |_| word(spp, i, len));
            match e.result {
                Err(_) => cx.fail(format!("word {}: {}", i, e.panic_text().unwrap())),
                Ok(Err(m)) => cx.fail(format!("word {} in base 6, lowest digit first: {}", i, m)),
                Ok(Ok(n)) => { if n > 1 { cx.nontrivial(); } cx.sample(|| format!("word {}: {} numbers", i, n)); }
            }
        });
    }
}

fn word(spp: u32, i: u64, len: u32) -> Result<usize, String> {
    let mut d = Digits(i);
    let new = || RandomSampler::new(spp);
    let mut s = [new(), new()];
    let mut k = [0u32; 2];
    for q in s.iter_mut() { q.start_pixel(Point2i::new(0, 0)); }
    let mut cur = 0;
    let mut drawn = std::collections::BTreeSet::new();
    let mut put = |v: f32| -> Result<(), String> {
        if !(v >= 0. && v < 1.) { return Err(format!("{:e} was handed out", v)); }
        if !drawn.insert(v.to_bits()) { return Err(format!("{} was handed out twice", v)); }
        Ok(())
    };
    for _ in 0..len {
        match d.take(6) {
            0 => { s[cur].start_pixel(Point2i::new(1, 2)); k[cur] = 0; }
            1 => {
                k[cur] += 1;
                let more = s[cur].start_next_sample();
                if more != (k[cur] < spp) { return Err(format!("after {} of {} samples the sampler says {}", k[cur], spp, more)); }
                if !more { s[cur].start_pixel(Point2i::new(0, 1)); k[cur] = 0; }
            }
            2 => put(s[cur].get_1d())?,
            3 => { let p = s[cur].get_2d(); put(p.x)?; put(p.y)?; }
            4 => { s[1 - cur] = s[cur].clone(); k[1 - cur] = k[cur]; }
            _ => cur = 1 - cur,
        }
    }
    let n = drawn.len();
    Ok(n)
}

fn one(w: u32, h: u32, r: f32, spp: u32, threads: u8, lit: bool, cx: &mut Cx) {
    let e = mc::single(|_| (), |_| render(w, h, r, spp, threads, lit));
    let what = || format!("{} x {}, radius {}, {} samples, {} workers{}", w, h, r, spp, threads, if lit { ", lit" } else { "" });
    match &e.result {
        Err(_) => cx.fail(format!("{}: {}", what(), e.panic_text().unwrap())),
        Ok(l) => match judge(l, region(w, h, r) * spp as usize) {
            Err(m) => cx.fail(format!("{}: {}", what(), m)),
            Ok(n) => cx.sample(|| format!("{}: {} numbers", what(), n)),
        },
    }
}

fn main() {
    let mut c = Check::new("C10", Level::ModelChecking);
    c.assume("numbers of the real generator differ whenever their stream or position differs (up to chance), and two generators seeded by the operating system have different streams");
    words(&mut c);
    let counts: Vec<u32> = (1..=300).chain([511, 512, 513, 1000, 1024, 1025, 10000, 32767, 32768, 32769, 65535, 65536, 65537, 131_073]).collect();
    c.family("sample counts", "1..=300 and up to 131073 samples per pixel; non-trivial: more than one", counts.len() as u64, |i, cx| {
        let spp = counts[i as usize];
        if spp > 1 { cx.nontrivial(); }
        let e = mc::single(|_| (), |_| {
            let mut s = RandomSampler::new(spp);
            for _ in 0..3 {
                s.start_pixel(Point2i::new(0, 0));
                let mut n = 1;
                s.get_1d();
                while s.start_next_sample() { n += 1; s.get_2d(); }
                if n != spp { return Err(n); }
            }
            Ok(())
        });
        if let Ok(Err(n)) = e.result { cx.fail(format!("{} samples instead of {}", n, spp)); }
        if let Some(p) = e.panic_text() { cx.fail(format!("{} samples: {}", spp, p)); }
    });
    // the same pattern of draws in every one of many samples
    let pat: Vec<(u32, u32)> = (0..=5u32).flat_map(|n| (0..1 << n).map(move |w| (n, w))).collect();
    let spps = [1u32, 2, 3, 9, 17, 33, 70, 130, 300];
    c.family("patterns", "1 to 300 samples in each of three pixels, every word of at most 5 draws (single or in pairs) in every sample, the sampler itself or a clone continued with; no number is handed out twice; non-trivial: two numbers drawn", (pat.len() * spps.len() * 2) as u64, |i, cx| {
        let mut d = Digits(i);
        let ((n, w), spp, clone) = (*d.of(&pat), *d.of(&spps), d.take(2) == 1);
        let e = mc::single(|_| (), |_| {
            let mut s = RandomSampler::new(spp);
            if clone { s = s.clone(); }
            let mut seen: BTreeMap<u32, (i32, u32, u32)> = BTreeMap::new();
            for x in 0..3 {
                s.start_pixel(Point2i::new(x * 16, 0));
                for k in 0..spp {
                    for j in 0..n {
                        let p = if w >> j & 1 == 1 { let p = s.get_2d(); vec![p.x, p.y] } else { vec![s.get_1d()] };
                        for v in p {
                            if let Some(o) = seen.insert(v.to_bits(), (x, k, j)) { return Err(format!("the number {} is handed out for (pixel, sample, draw) {:?} and {:?}", v, o, (x, k, j))); }
                        }
                    }
                    if s.start_next_sample() != (k + 1 < spp) { return Err(format!("after {} of {} samples the sampler says {}", k + 1, spp, k + 1 >= spp)); }
                }
            }
            Ok(seen.len())
        });
        let what = || format!("{} samples, {} draws of pattern {:b}{}", spp, n, w, if clone { ", cloned" } else { "" });
        match e.result {
            Err(_) => cx.fail(format!("{}: {}", what(), e.panic_text().unwrap())),
            Ok(Err(m)) => cx.fail(format!("{}: {}", what(), m)),
            Ok(Ok(n)) => { if n > 1 { cx.nontrivial(); } cx.sample(|| format!("{}: {} numbers", what(), n)); }
        }
    });
    c.family("all numbers", "1024 samplers drawing 16384 numbers each: every one of the 2^24 values the generator can produce; they are handed out in [0, 1); non-trivial: all", 64, |i, cx| {
        let e = mc::single(|_| (), |_| {
            let mut v: Vec<RandomSampler> = (0..1024).map(|_| RandomSampler::new(1)).collect();
            let mut bad = None;
            for s in v[i as usize * 16..(i as usize + 1) * 16].iter_mut() {
                s.start_pixel(Point2i::new(0, 0));
                for k in 0..8192 {
                    let p = if k % 2 == 0 { s.get_2d() } else { Point2f::new(s.get_1d(), s.get_1d()) };
                    for x in [p.x, p.y] { if !(x >= 0. && x < 1.) { bad = Some(x); } }
                }
            }
            bad
        });
        cx.evals(16 * 16384);
        cx.nontrivials(16 * 16384);
        match e.result {
            Ok(None) => (),
            Ok(Some(x)) => cx.fail(format!("{:e} was handed out", x)),
            Err(_) => cx.fail(e.panic_text().unwrap()),
        }
    });
    let confs: Vec<(u32, u32, f32, u32, u8, bool)> = [(1, 1), (3, 2), (17, 1), (17, 17), (33, 2)].iter().flat_map(|f| [0.5f32, 1.5].iter().flat_map(move |r| [1u32, 2].iter().flat_map(move |n| [1u8, 2, 3, 8].iter().flat_map(move |t| [false, true].iter().map(move |l| (f.0, f.1, *r, *n, *t, *l)))))).collect();
    c.family("renders", "films of one and several work units, one and two samples, 1, 2, 3, 8 workers, one after the other; non-trivial: more than one worker", confs.len() as u64, |i, cx| {
        let (w, h, r, spp, threads, lit) = confs[i as usize];
        // the stand-in numbers 16384 outputs per stream
        let lit = lit && region(w, h, r) * spp as usize <= 100;
        if threads > 1 { cx.nontrivial(); }
        one(w, h, r, spp, threads, lit, cx);
    });
    let mut cfgs = vec![(17u32, 1u32, 0.5f32, 1u32, 2u8, 9u32, false), (17, 1, 0.5, 2, 3, 3, false), (33, 1, 0.5, 1, 2, 9, true), (2, 1, 0.5, 1, 4, 2, true), (17, 1, 0.5, 1, 4, 1, false)];
    if c.thorough() { cfgs.extend([(33, 1, 0.5, 1, 3, 4, false), (17, 17, 0.5, 1, 2, 9, true), (17, 1, 0.5, 1, 4, 3, false), (17, 1, 0.5, 1, 5, 2, false)]); }
    for (w, h, r, spp, threads, bound, lit) in cfgs {
        let mut cfg = Explore::new(bound);
        cfg.max_execs = c.pick(30_000, 2_000_000);
        cfg.time = std::time::Duration::from_secs(c.pick(15, 400));
        c.explore(&format!("schedules {}x{} spp{} {}w p{}{}", w, h, spp, threads, bound, if lit { " lit" } else { "" }), "all schedules of the workers: every number handed out is a different one, and the samples are complete; non-trivial: at least two workers",
            &cfg, |_| (), |_| render(w, h, r, spp, threads, lit), |e, cx| {
                if e.tasks > 2 { cx.nontrivial(); }
                match &e.result {
                    Err(_) => cx.fail(format!("the render failed: {}", e.panic_text().unwrap())),
                    Ok(l) => if let Err(m) = judge(l, region(w, h, r) * spp as usize) { cx.fail(m); },
                }
                cx.sample(|| format!("{} operations", e.ops));
            });
    }
    c.finish();
}
