//! C04: the output file is exactly the finished image, or the failure is reported.
use std::sync::Arc;
use checks::*;
use mc::{sched, Check, Digits, Fault, Level, World};
use pt::api::*;

fn value(p: Point2f) -> Spectrum {
    let h = mc::num::mix((p.x.floor() as i64 as u64) << 20 ^ (p.y.floor() as i64 as u64 & 0xfffff));
    let g = |k: u64| linear((h >> k & 255) as f64) as f32;
    Spectrum::new(g(0), g(8), g(16))
}

fn render(w: u32, h: u32, threads: u8) {
    let film = Film::new(Point2u::new(w, h), box_filter(0.5));
    let s = FnSampler::new(1, |_, _, _| 0.5);
    Integrator::new(wall_scene(Arc::new(value)), s, RasterCamera, film).render(threads);
}

/// The channel values the image must have.
fn expected(w: u32, h: u32) -> Vec<[u32; 3]> {
    let mut v = Vec::new();
    for y in 0..h {
        for x in 0..w {
            let s = value(Point2f::new(x as f32 + 0.5, y as f32 + 0.5));
            let g = |v: f32| (srgb255(v as f64) + 0.5).floor() as u32;
            v.push([g(s.r), g(s.g), g(s.b)]);
        }
    }
    v
}

fn exact(data: Option<Vec<u8>>, w: u32, h: u32) -> Result<(), String> {
    let data = data.ok_or("there is no output file")?;
    let p = parse_ppm(&data)?;
    if (p.w, p.h) != (w as usize, h as usize) {
        return Err(format!("the header says {} x {}", p.w, p.h));
    }
    let e = expected(w, h);
    match (0..e.len()).find(|&k| p.px[k] != e[k]) {
        Some(k) => Err(format!("pixel line {} is {:?} instead of {:?}", k, p.px[k], e[k])),
        None => Ok(()),
    }
}

const SIZES: [(u32, u32); 6] = [(1, 1), (3, 2), (2, 3), (25, 4), (40, 37), (64, 48)];

/// What the file contained before.
fn prior(k: usize, len: usize) -> Option<Vec<u8>> {
    Some(match k {
        0 => return None,
        1 => vec![],
        2 => vec![b'7'; len / 2],
        3 => vec![b'7'; len],
        4 => vec![b'7'; len + 1],
        5 => vec![b'\n'; 3 * len + 100_000],
        _ => (0..4 * len).map(|k| if k % 6 == 5 { b'\n' } else if k % 2 == 0 { b'9' } else { b' ' }).collect(),
    })
}

fn main() {
    let mut c = Check::new("C04", Level::FaultEnumeration);
    c.assume("an interrupted open may be reported as a failure; a failing operation has no effect, except for a torn write, which stores half of its data");
    // the operations of a faultless render
    let runs: Vec<(usize, Vec<u8>)> = SIZES.iter().map(|&(w, h)| {
        let e = sched::run(vec![], 1_000_000, false, |_: &World| (), |_| render(w, h, 1));
        let fs = e.world.fs.lock().unwrap();
        (fs.ops.len(), fs.get(OUT).unwrap_or_default())
    }).collect();
    c.family("prior content", "every size, 1..=3 workers and prior content of the file (none, empty, shorter, equal, longer by one, much longer): exactly the image; non-trivial: the file existed", (SIZES.len() * 7 * 3) as u64, |i, cx| {
        let mut d = Digits(i);
        let (k, pr, n) = (d.take(SIZES.len()), d.take(7), d.take(3) as u8 + 1);
        let (w, h) = SIZES[k];
        if pr > 0 { cx.nontrivial(); }
        let e = sched::run(vec![], 1_000_000, false, |wd: &World| if let Some(p) = prior(pr, runs[k].1.len()) { wd.fs.lock().unwrap().put(OUT, &p) }, |_| render(w, h, n));
        let fs = e.world.fs.lock().unwrap();
        match e.panic_text() {
            Some(p) => cx.fail(format!("{}x{}: the render failed: {}", w, h, p)),
            None => if let Err(m) = exact(fs.get(OUT), w, h) { cx.fail(format!("{}x{} over a file of {} bytes: {}", w, h, prior(pr, runs[k].1.len()).map_or(0, |p| p.len()), m)); }
        }
        let others: Vec<_> = fs.snapshot().into_keys().filter(|f| f != OUT).collect();
        cx.check(others.is_empty(), || format!("other files were left behind: {:?}", others));
        cx.sample(|| format!("{}x{}, prior content {}: {:?}", w, h, pr, fs.ops.iter().map(|o| format!("{} {}", o.kind, o.len)).collect::<Vec<_>>()));
    });
    // the same film drawn over its own previous, larger and smaller image
    c.family("images over images", "every image written over every other; non-trivial: the earlier file was larger", (SIZES.len() * SIZES.len()) as u64, |i, cx| {
        let mut d = Digits(i);
        let (a, b) = (d.take(SIZES.len()), d.take(SIZES.len()));
        if runs[a].1.len() > runs[b].1.len() { cx.nontrivial(); }
        let (w, h) = SIZES[b];
        let e = sched::run(vec![], 1_000_000, false, |_: &World| (), |_| { render(SIZES[a].0, SIZES[a].1, 1); render(w, h, 1) });
        let fs = e.world.fs.lock().unwrap();
        match e.panic_text() {
            Some(p) => cx.fail(format!("the render failed: {}", p)),
            None => if let Err(m) = exact(fs.get(OUT), w, h) { cx.fail(format!("{}x{} over {:?}: {}", w, h, SIZES[a], m)); }
        }
        cx.sample(|| format!("{:?} then {:?}", SIZES[a], SIZES[b]));
    });
    // every fault at every operation, and every pair
    let faults = [Fault::Error, Fault::Torn, Fault::Zero, Fault::Interrupted, Fault::Short(1), Fault::Short(7), Fault::Short(1000)];
    // what an operating system answers: EPERM ENOENT EIO EAGAIN ENOMEM EACCES EBUSY EEXIST EISDIR EINVAL EFBIG ENOSPC EROFS EPIPE ENOSYS ETIMEDOUT ESTALE EDQUOT
    let errnos = [1, 2, 5, 11, 12, 13, 16, 17, 21, 22, 27, 28, 30, 32, 38, 110, 116, 122];
    let single: Vec<Fault> = faults.iter().copied().chain(errnos.iter().map(|n| Fault::Os(*n))).collect();
    let max_ops = runs.iter().map(|r| r.0).max().unwrap() + 3;
    let nf = faults.len();
    c.family("one fault", "every fault kind (18 errors of the operating system, interruption, short, torn and empty writes) at every I/O operation, over no file and over a longer file; non-trivial: the fault occurred", (SIZES.len() * max_ops * single.len() * 2) as u64, |i, cx| {
        let mut d = Digits(i);
        let (k, at, f, pr) = (d.take(SIZES.len()), d.take(max_ops), *d.of(&single), d.take(2) * 5);
        faulty(SIZES[k], &[(at, f)], None, None, prior(pr, runs[k].1.len()), cx);
    });
    let pair_sizes = c.pick(4usize, SIZES.len());
    c.family("two faults", "every pair of faults at every pair of I/O operations; non-trivial: a fault occurred", (pair_sizes * max_ops * max_ops * nf * nf) as u64, |i, cx| {
        let mut d = Digits(i);
        let (k, a, b) = (d.take(pair_sizes), d.take(max_ops), d.take(max_ops));
        let (f, g) = (*d.of(&faults), *d.of(&faults));
        if a >= b {
            return;
        }
        faulty(SIZES[k], &[(a, f), (b, g)], None, None, None, cx);
    });
    c.family("disk full", "every I/O operation from the k-th on fails, and every write is limited to n bytes with or without that; non-trivial: an operation failed or came short", (SIZES.len() * max_ops * 8 * 2) as u64, |i, cx| {
        let mut d = Digits(i);
        let (k, from, short, full) = (d.take(SIZES.len()), d.take(max_ops), [1usize, 2, 3, 5, 16, 511, 4096, 100000][d.take(8)], d.take(2) == 1);
        if short < 16 && SIZES[k].0 > 25 && from % 8 != 0 {
            return;
        }
        let from = if full { Some(from * if short < 4096 { 17 } else { 1 }) } else { None };
        faulty(SIZES[k], &[], from, Some(short), None, cx);
    });
    c.finish();
}

fn faulty((w, h): (u32, u32), faults: &[(usize, Fault)], from: Option<usize>, max_write: Option<usize>, prior: Option<Vec<u8>>, cx: &mut mc::Cx) {
    let e = sched::run(vec![], 3_000_000, false, |wd: &World| {
        let mut fs = wd.fs.lock().unwrap();
        if let Some(p) = &prior { fs.put(OUT, p); }
        for (at, f) in faults { fs.faults.insert(*at, *f); }
        fs.fail_from = from;
        fs.max_write = max_write;
    }, |_| render(w, h, 1));
    let fs = e.world.fs.lock().unwrap();
    let what = || format!("{}x{}, faults {:?}, failing from {:?}, writes of at most {:?} bytes, operations {:?}", w, h, faults, from, max_write, fs.ops.iter().take(12).map(|o| format!("{} {}", o.kind, o.len)).collect::<Vec<_>>());
    if let Some(a) = &e.abort {
        cx.fail(format!("{}: does not end: {:?}", what(), a));
        return;
    }
    // which of them happened
    let hit: Vec<(usize, Fault)> = faults.iter().cloned().filter(|(at, _)| *at < fs.ops.len()).collect();
    let hard = hit.iter().any(|(at, f)| match f {
        Fault::Error | Fault::Os(_) => true,
        // only a write can be torn, come short or store nothing
        Fault::Torn => true,
        Fault::Zero => fs.ops[*at].kind != "write" || fs.ops[*at].len > 0,
        _ => false,
    }) || from.map_or(false, |k| k < fs.ops.len());
    let soft_only_writes = hit.iter().all(|(at, f)| match f { Fault::Interrupted => fs.ops[*at].kind == "write", _ => true });
    if fs.fired > 0 || max_write.is_some() { cx.nontrivial(); }
    if e.result.is_ok() {
        if hard {
            cx.fail(format!("{}: an I/O operation failed but the render returned normally", what()));
            return;
        }
        if let Err(m) = exact(fs.get(OUT), w, h) {
            cx.fail(format!("{}: the render returned normally but {}", what(), m));
        }
    } else if !hard && soft_only_writes {
        cx.fail(format!("{}: writes only came short or were interrupted, but the render failed: {}", what(), e.panic_text().unwrap_or_default()));
    }
    cx.sample(|| format!("{} -> {}", what(), if e.result.is_ok() { "image written".into() } else { e.panic_text().unwrap_or_default() }));
}
