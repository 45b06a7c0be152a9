//! C05: each pixel is the filter-weighted mean of the samples that cover it.
use checks::*;
use mc::{Check, Cx, Digits, Level};
use pt::api::*;
use pt::bbox::BBox2i;
use pt::filter::Filter;
use pt::vector::Point2i;
use std::sync::Arc;

/// Every neighbouring pair of table cells has clearly different weights; not symmetric in x and y.
fn cells(x: usize, y: usize) -> f64 { [1., 1.6, 0.7, 2.2, 0.45, 1.25, 3., 0.9][(3 * x + 5 * y + x * y) % 8] * if (x + y) % 2 == 0 { 1. } else { 0.6 } }

thread_local!(static RADIUS: std::cell::Cell<f32> = std::cell::Cell::new(1.));
fn cell_weight(x: f32, y: f32) -> f32 {
    let r = RADIUS.with(|r| r.get());
    let c = |d: f32| (d / r * 16.).floor() as usize;
    cells(c(x), c(y)) as f32
}
fn cell_filter(r: f32) -> FnFilter {
    RADIUS.with(|x| x.set(r));
    FnFilter { radius: r, f: cell_weight }
}

thread_local!(static AMP: std::cell::Cell<f32> = std::cell::Cell::new(1.));
fn lobed(x: usize, y: usize) -> f64 { if x < 3 && y < 3 { 2. } else if (x + y) % 3 == 0 { -0.0625 } else { 0.03125 * ((x + 2 * y) % 4) as f64 } }
fn amp_weight(x: f32, y: f32) -> f32 {
    let (r, a) = (RADIUS.with(|r| r.get()), AMP.with(|a| a.get()));
    let c = |d: f32| (d / r * 16.).floor() as usize;
    if a > 0. { (cells(c(x), c(y)) * a as f64) as f32 } else { lobed(c(x), c(y)) as f32 }
}

/// The weights a sample may have at a pixel: one, or two at a border between cells, and none outside.
/// An offset within 1e-5 of the support's border that is not exactly representable may be in or out.
fn weights(radius: f64, table: &dyn Fn(usize, usize) -> f64, s: [f64; 2], px: [i64; 2]) -> Vec<f64> {
    let mut opts: [Vec<usize>; 2] = [vec![], vec![]];
    let mut maybe_out = false;
    for a in 0..2 {
        let d = (px[a] as f64 + 0.5 - s[a]).abs();
        if d > radius * (1. + 1e-5) { return vec![0.]; }
        let exact = (d * 1024.).fract() == 0. && (radius * 1024.).fract() == 0.;
        if d > radius && exact { return vec![0.]; }
        if (d - radius).abs() < 1e-5 * radius && !exact { maybe_out = true; }
        let c = d / radius * 16.;
        for x in [c - 2e-3, c + 2e-3] {
            let k = (x.floor().max(0.) as usize).min(15);
            if !opts[a].contains(&k) { opts[a].push(k); }
        }
    }
    let mut v: Vec<f64> = opts[0].iter().flat_map(|x| opts[1].iter().map(move |y| (*x, *y))).map(|(x, y)| table(x, y)).collect();
    if maybe_out { v.push(0.); }
    v
}

struct Sample { p: [f64; 2], l: [f64; 3] }

/// Is the image explained by the samples?  Returns the number of pixels with at least two samples.
fn judge(img: &Ppm, radius: f64, table: &dyn Fn(usize, usize) -> f64, samples: &[Sample]) -> Result<u64, String> {
    let mut shared = 0;
    for y in 0..img.h {
        for x in 0..img.w {
            let cand: Vec<(Vec<f64>, &Sample)> = samples.iter().map(|s| (weights(radius, table, s.p, [x as i64, y as i64]), s)).filter(|(w, _)| w.iter().any(|w| *w != 0.)).collect();
            if cand.len() > 1 { shared += 1; }
            let total: usize = cand.iter().map(|(w, _)| w.len()).product();
            if total > 1 << 16 { return Err(format!("check: {} explanations of one pixel", total)); }
            let got = img.at(x, y);
            let mut ok = false;
            let mut want = [0f64; 3];
            for combo in 0..total {
                let mut d = combo;
                let (mut sw, mut sl) = (0., [0f64; 3]);
                for (w, s) in cand.iter() {
                    let wt = w[d % w.len()];
                    d /= w.len();
                    sw += wt;
                    for c in 0..3 { sl[c] += wt * s.l[c]; }
                }
                let mean = sl.map(|v| if sw > 0. { v / sw } else { 0. });
                // relative rounding of the sums
                let big = cand.iter().map(|(_, s)| s.l.iter().fold(0f64, |a, b| a.max(b.abs()))).fold(0., f64::max);
                want = mean;
                if (0..3).all(|c| channel_ok(got[c], mean[c] - 2e-6 - 2e-6 * big, mean[c] + 2e-6 + 2e-6 * big)) { ok = true; break; }
            }
            if !ok {
                return Err(format!("pixel ({}, {}) is {:?}, the weighted mean of its {} samples is {:?}", x, y, got, cand.len(), want.map(|v| (srgb255(v) * 100.).round() / 100.)));
            }
        }
    }
    Ok(shared)
}

/// Put the samples on a film by way of the given work units (each sample goes into the first that contains its pixel).
fn film_image<F: Filter>(w: u32, h: u32, filter: F, samples: &[Sample], units: &[BBox2i], merge: &[usize]) -> Result<Ppm, String> {
    let film = Film::new(Point2u::new(w, h), filter);
    let mut tiles: Vec<_> = units.iter().map(|u| Some(film.get_film_tile(*u))).collect();
    for s in samples {
        let (x, y) = (s.p[0].floor() as i32, s.p[1].floor() as i32);
        let t = units.iter().position(|u| u.min.x <= x && x < u.max.x && u.min.y <= y && y < u.max.y).ok_or("sample outside")?;
        tiles[t].as_mut().unwrap().add_sample(Point2f::new(s.p[0] as f32, s.p[1] as f32), Spectrum::new(s.l[0] as f32, s.l[1] as f32, s.l[2] as f32));
    }
    for m in merge {
        film.merge_film_tile(tiles[*m].take().unwrap());
    }
    let mut out = Vec::new();
    film.write_image_ppm(&mut out);
    parse_ppm(&out)
}

fn whole(f: (u32, u32), r: f32) -> BBox2i {
    // the film's sample region
    let lo = (0.5 - r).floor() as i32;
    let hi = |n: u32| (n as f32 - 0.5 + r).ceil() as i32;
    BBox2i::new(Point2i::new(lo, lo), Point2i::new(hi(f.0), hi(f.1)))
}

fn one(w: u32, h: u32, r: f32, samples: &[Sample], units: &[BBox2i], merge: &[usize], what: &dyn Fn() -> String, cx: &mut Cx) {
    let img = film_image(w, h, cell_filter(r), samples, units, merge);
    match img.and_then(|i| judge(&i, r as f64, &|x, y| cells(x, y) as f32 as f64, samples)) {
        Err(e) => cx.fail(format!("{}: {}", what(), e)),
        Ok(n) => if n > 0 { cx.nontrivial() },
    }
    cx.sample(|| what());
}

fn main() {
    let mut c = Check::new("C05", Level::Exploration);
    c.assume("filters are symmetric in each axis, as all of the code's are");
    let radii = [0.3f32, 0.5, 0.75, 1., 1.3, 1.5, 2., 2.25, 3., 4.];
    // one sample at every position of a lattice, against reference samples in every pixel
    // (the mean then reveals the sample's weight at every pixel)
    let n = c.pick(48usize, 128);
    c.family("one sample against a reference", "5 x 4 film; every radius; a bright sample at every position of an n x n lattice of the pixel (2, 1) plus its corner, and a black one near each pixel's centre; non-trivial: shared pixels", (radii.len() * n * n) as u64, |i, cx| {
        let mut d = Digits(i);
        let (r, x, y) = (*d.of(&radii), d.take(n), d.take(n));
        let p = [2. + x as f64 / n as f64, 1. + y as f64 / n as f64];
        let p = [p[0] as f32 as f64, p[1] as f32 as f64];
        let mut s = vec![Sample { p, l: [1., 0.3, 4.] }];
        for k in 0..20 {
            s.push(Sample { p: [(k % 5) as f64 + 0.51171875, (k / 5) as f64 + 0.48828125], l: [0.; 3] });
        }
        one(5, 4, r, &s, &[whole((5, 4), r)], &[0], &|| format!("radius {}, sample at {:?}", r, p), cx);
    });
    // wide filters
    let wide = [5.5f32, 8., 12.5, 16., 17., 31.5, 33., 40.];
    let wn = c.pick(6usize, 20);
    c.family("wide filters", "3 x 2 film and 40 x 3 film, radii from 5.5 to 40: a bright sample at every position of an n x n lattice of pixels at the film's corners and of the margin around it; black ones near each pixel's centre; non-trivial: shared pixels", (wide.len() * wn * wn * 5 * 2) as u64, |i, cx| {
        let mut d = Digits(i);
        let (r, x, y, at, film) = (*d.of(&wide), d.take(wn), d.take(wn), d.take(5), [(3u32, 2u32), (40, 3)][d.take(2)]);
        let reach = (r - 0.5).floor() as f64;
        let base = [[0., 0.], [film.0 as f64 - 1., film.1 as f64 - 1.], [-reach, 0.], [0., -reach], [film.0 as f64 - 1. + reach, film.1 as f64 - 1. + reach]][at];
        let p = [base[0] + x as f64 / wn as f64, base[1] + y as f64 / wn as f64].map(|v| v as f32 as f64);
        let mut s = vec![Sample { p, l: [1., 0.3, 4.] }];
        // one per 4 x 4 pixels, so that the number of candidates stays small
        for k in 0..film.0 * film.1 {
            let (x, y) = (k % film.0, k / film.0);
            if x % 8 == 3 || (film.0 < 8 && x == 1 && y == 1) { s.push(Sample { p: [x as f64 + 0.51171875, y as f64 + 0.48828125], l: [0.; 3] }); }
        }
        s.truncate(12);
        one(film.0, film.1, r, &s, &[whole(film, r)], &[0], &|| format!("film {:?}, radius {}, sample at {:?}", film, r, p), cx);
    });
    // the mean does not change when all weights are multiplied by a number
    let amps = [1e-30f32, 1e-18, 1e-9, 1e-6, 1e-4, 1e4, 1e9, 1e18, 1e30];
    c.family("filters of other magnitudes", "5 x 4 film, four radii, filters whose values are multiplied by 1e-30 to 1e30; a bright sample at every position of a 12 x 12 lattice, a grey one near each pixel's centre; and filters that are negative away from their centre; non-trivial: shared pixels", ((amps.len() + 1) * 4 * 144) as u64, |i, cx| {
        let mut d = Digits(i);
        let (k, r, x, y) = (d.take(amps.len() + 1), [0.75f32, 1.5, 2., 3.][d.take(4)], d.take(12), d.take(12));
        let p = [2. + x as f64 / 12., 1. + y as f64 / 12.].map(|v| v as f32 as f64);
        let mut s = vec![Sample { p, l: [1., 0.3, 0.7] }];
        for k in 0..20 { s.push(Sample { p: [(k % 5) as f64 + 0.51171875, (k / 5) as f64 + 0.48828125], l: [0.2; 3] }); }
        RADIUS.with(|x| x.set(r));
        AMP.with(|a| a.set(if k < amps.len() { amps[k] } else { 0. }));
        let amp = AMP.with(|a| a.get()) as f64;
        let table = |x: usize, y: usize| if amp > 0. { cells(x, y) * amp } else { lobed(x, y) };
        match film_image(5, 4, FnFilter { radius: r, f: amp_weight }, &s, &[whole((5, 4), r)], &[0]).and_then(|i| judge(&i, r as f64, &|x, y| table(x, y) as f32 as f64, &s)) {
            Err(e) => cx.fail(format!("radius {}, sample at {:?}, filter {}: {}", r, p, if amp > 0. { format!("multiplied by {}", amp) } else { "with negative lobes".into() }, e)),
            Ok(n) => if n > 0 { cx.nontrivial() },
        }
    });
    // a bright sample against a black one: the mean shows the share of a weight however small
    c.family("two samples, magnified", "5 x 5 film, radius 2: a bright and a black sample at every pair of positions of a 12 x 12 lattice over the middle pixel, for each of the film's pixels both cover so bright that this pixel's mean is mid-range; non-trivial: shared pixels", 144 * 144, |i, cx| {
        let mut d = Digits(i);
        let f = |k: usize| 2. + (k as f64 + 0.5) / 12.;
        let (a, b) = ([f(d.take(12)), f(d.take(12))], [f(d.take(12)), f(d.take(12))]);
        let (a, b) = (a.map(|v| v as f32 as f64), b.map(|v| v as f32 as f64));
        for px in [[2, 2], [1, 2], [2, 3], [4, 4], [0, 1]] {
            let t = |p: [f64; 2]| { let w = weights(2., &|x, y| cells(x, y), p, px); w.first().copied().unwrap_or(0.) };
            let (wa, wb) = (t(a), t(b));
            if wa <= 0. || wb <= 0. { continue; }
            let l: [f64; 3] = [0.7, 0.2, 0.05].map(|v| v * (wa + wb) / wa);
            let s = [Sample { p: a, l: l.map(|v| v as f32 as f64) }, Sample { p: b, l: [0.; 3] }];
            one(5, 5, 2., &s, &[whole((5, 5), 2.)], &[0], &|| format!("samples at {:?} and {:?}", a, b), cx);
            if cx.failed() { return; }
        }
    });
    let many = [1usize, 4, 16, 64, 256, 1024, 4096, 65536];
    c.family("one bright sample among many", "3 x 2 film, radius 0.5: 1 to 65536 samples in a pixel, all black but one so bright that the mean is mid-range, the bright one first, in the middle or last; each channel in turn the brightest; non-trivial: more than one sample", (many.len() * 9) as u64, |i, cx| {
        let mut d = Digits(i);
        let (n, at, ch) = (*d.of(&many), d.take(3), d.take(3));
        let at = [0, n / 2, n - 1][at];
        let l: [f64; 3] = [0, 1, 2].map(|k| [0.6, 0.11, 0.02][(k + ch) % 3] * n as f64);
        let s: Vec<Sample> = (0..n).map(|k| Sample { p: [1.265625, 0.734375], l: if k == at { l.map(|v| v as f32 as f64) } else { [0.; 3] } }).collect();
        if n > 1 { cx.nontrivial(); }
        one(3, 2, 0.5, &s, &[whole((3, 2), 0.5)], &[0], &|| format!("{} samples, number {} has {:?}", n, at, l), cx);
    });
    // every way to cut the sample region into two or three work units, all merge orders
    let alpha: [[f64; 2]; 10] = [[0.03125, 0.03125], [1.96875, 0.53125], [2.03125, 0.46875], [1.46875, 1.53125], [2.53125, 1.96875], [3.96875, 0.96875], [0.5, 1.5], [2., 1.], [-0.53125, -0.03125], [4.21875, 2.28125]];
    let srad = [0.5f32, 1., 1.5, 2.];
    let subsets: Vec<[usize; 3]> = (0..10).flat_map(|a| (a + 1..10).flat_map(move |b| (b + 1..10).map(move |c| [a, b, c]))).collect();
    c.family("work units", "4 x 2 film: every three of 10 sample positions, four radii, every cut of the sample region by one line in x and one in y (4 units) and 4! merge orders of the units; non-trivial: shared pixels", (subsets.len() * srad.len() * 8 * 6) as u64, |i, cx| {
        let mut d = Digits(i);
        let (sub, r, cutx, cuty) = (*d.of(&subsets), *d.of(&srad), d.take(8) as i32 - 1, d.take(6) as i32 - 1);
        let b = whole((4, 2), r);
        let (cx_, cy_) = (cutx.max(b.min.x + 1).min(b.max.x - 1), cuty.max(b.min.y + 1).min(b.max.y - 1));
        let p = Point2i::new;
        let units = [BBox2i::new(b.min, p(cx_, cy_)), BBox2i::new(p(cx_, b.min.y), p(b.max.x, cy_)), BBox2i::new(p(b.min.x, cy_), p(cx_, b.max.y)), BBox2i::new(p(cx_, cy_), b.max)];
        let inside = |p: [f64; 2]| p[0] >= b.min.x as f64 && p[1] >= b.min.y as f64 && p[0] < b.max.x as f64 && p[1] < b.max.y as f64;
        let s: Vec<Sample> = sub.iter().filter(|a| inside(alpha[**a])).enumerate().map(|(k, a)| Sample { p: alpha[*a], l: [[1., 0.1, 0.], [0.2, 0.9, 0.5], [0., 0.4, 2.]][k] }).collect();
        for m in perms4() {
            cx.evals(1);
            one(4, 2, r, &s, &units, &m, &|| format!("samples {:?}, radius {}, cut at ({}, {}), merged in order {:?}", sub, r, cx_, cy_, m), cx);
            if cx.failed() { return; }
        }
    });
    c.family("films", "every film 1..=12 by 1..=12 with a lattice of samples (two per pixel and axis), radius 0.5..4, cut into units of every size 1..=7; non-trivial: shared pixels", 144 * srad.len() as u64 * 7, |i, cx| {
        let mut d = Digits(i);
        let (w, h, r, u) = (d.take(12) as u32 + 1, d.take(12) as u32 + 1, *d.of(&srad), d.take(7) as i32 + 1);
        let b = whole((w, h), r);
        let mut units = Vec::new();
        let mut y = b.min.y;
        while y < b.max.y {
            let mut x = b.min.x;
            while x < b.max.x {
                units.push(BBox2i::new(Point2i::new(x, y), Point2i::new((x + u).min(b.max.x), (y + u).min(b.max.y))));
                x += u;
            }
            y += u;
        }
        let mut s = Vec::new();
        for y in b.min.y..b.max.y {
            for x in b.min.x..b.max.x {
                for k in 0..4 {
                    let v = mc::num::mix((x as u64 & 255) << 16 | (y as u64 & 255) << 8 | k);
                    let g = |s: u64| (v >> s & 255) as f64 / 256.;
                    // inside a cell for all pixels and these radii
                    s.push(Sample { p: [x as f64 + (k % 2) as f64 / 2. + 0.2578125, y as f64 + (k / 2) as f64 / 2. + 0.2421875], l: [g(0), g(8), g(16)] });
                }
            }
        }
        let merge: Vec<usize> = (0..units.len()).rev().collect();
        one(w, h, r, &s, &units, &merge, &|| format!("{} x {} film, radius {}, units of {}", w, h, r, u), cx);
    });
    let mut big = vec![(300u32, 300u32), (1, 66000), (70000, 1), (257, 256), (2000, 40), (40, 2000), (255, 257), (4097, 17)];
    if c.thorough() { big.extend([(1100, 1000), (3, 200_000), (200_000, 3), (4096, 257)]); }
    c.family("large films", "films of up to 90000 (thorough 1.1 million) pixels, radii 0.5 and 2, up to 5 x 5 samples spread over the film, in one work unit or in one per quarter, merged in reverse; non-trivial: all", big.len() as u64 * 4, |i, cx| {
        let mut d = Digits(i);
        let ((w, h), r, cut) = (*d.of(&big), [0.5f32, 2.][d.take(2)], d.take(2) == 1);
        let b = whole((w, h), r);
        let mut s: Vec<Sample> = vec![];
        for k in 0..25 {
            let at = |n: u32, k: u32| ((n - 1) * k / 4) as f64;
            let (x, y) = (at(w, k % 5), at(h, k / 5));
            if s.iter().any(|t| t.p[0].floor() == x && t.p[1].floor() == y) { continue; }
            let v = mc::num::mix(k as u64 + 7);
            let g = |s: u64| ((v >> s & 127) + 64) as f64 / 256.;
            s.push(Sample { p: [x + 0.265625, y + 0.234375], l: [g(0), g(8), g(16)] });
        }
        let p = Point2i::new;
        let (cx_, cy_) = if cut { ((w / 2) as i32, (h / 2) as i32) } else { (b.max.x, b.max.y) };
        let units = [BBox2i::new(b.min, p(cx_, cy_)), BBox2i::new(p(cx_, b.min.y), p(b.max.x, cy_)), BBox2i::new(p(b.min.x, cy_), p(cx_, b.max.y)), BBox2i::new(p(cx_, cy_), b.max)];
        cx.nontrivial();
        one(w, h, r, &s, &units, &[3, 2, 1, 0], &|| format!("{} x {} film, radius {}{}", w, h, r, if cut { ", in quarters" } else { "" }), cx);
    });
    // the code's own filter
    let al = [0.25f32, 0.5, 1., 2., 3.];
    let n = c.pick(32usize, 96);
    c.family("Gaussian filter", "every radius and falloff: one bright sample at each lattice position against black ones; the weights are the truncated Gaussian's; non-trivial: shared pixels", (radii.len() * al.len() * n * n) as u64, |i, cx| {
        let mut d = Digits(i);
        let (r, a, x, y) = (*d.of(&radii), *d.of(&al), d.take(n), d.take(n));
        let p = [1. + ((x as f32 + 0.37) / n as f32) as f64, 1. + ((y as f32 + 0.37) / n as f32) as f64];
        let p = p.map(|v| v as f32 as f64);
        let mut s = vec![Sample { p, l: [1., 0.3, 4.] }];
        for k in 0..9 { s.push(Sample { p: [(k % 3) as f64 + 0.51171875, (k / 3) as f64 + 0.48828125], l: [0.; 3] }); }
        let (ra, aa) = (r as f64, a as f64);
        let g = move |c: usize| { let d = (c as f64 + 0.5) / 16. * ra; ((-aa * d * d).exp() - (-aa * ra * ra).exp()).max(0.) };
        let img = film_image(3, 3, GaussianFilter::new(r, a), &s, &[whole((3, 3), r)], &[0]);
        match img.and_then(|i| judge(&i, ra, &|x, y| g(x) * g(y), &s)) {
            Err(e) => cx.fail(format!("radius {}, falloff {}, sample at {:?}: {}", r, a, p, e)),
            Ok(n) => if n > 0 { cx.nontrivial() },
        }
        cx.sample(|| format!("radius {}, falloff {}, sample at {:?}", r, a, p));
    });
    c.family("Gaussian values", "every radius and falloff, offsets on a 41 x 41 lattice over and beyond the support: the truncated Gaussian, never negative; non-trivial: inside", (radii.len() * al.len() * 41 * 41) as u64, |i, cx| {
        let mut d = Digits(i);
        let (r, a, x, y) = (*d.of(&radii), *d.of(&al), d.take(41), d.take(41));
        let f = GaussianFilter::new(r, a);
        let g = |d: f64| ((-a as f64 * d * d).exp() - (-a as f64 * (r as f64).powi(2)).exp()).max(0.);
        let (x, y) = ((x as f32 - 20.) / 16. * r, (y as f32 - 20.) / 16. * r);
        let (got, want) = (f.evaluate(Point2f::new(x, y)) as f64, g(x as f64) * g(y as f64));
        if want > 0. { cx.nontrivial(); }
        cx.check(f.radius() == r && got >= 0. && (got - want).abs() <= 2e-6, || format!("radius {}, falloff {}: value {} at ({}, {}), expected {}", r, a, got, x, y, want));
    });
    // the same through complete renders, positions and radiances through the sampler and the scene
    let confs: Vec<(u32, u32, f32, u32)> = [(17u32, 3u32), (3, 17), (18, 18), (33, 2), (1, 1), (16, 16)].iter().flat_map(|s| [0.5f32, 1., 1.5, 2.5].iter().flat_map(move |r| [1u32, 3].iter().map(move |n| (s.0, s.1, *r, *n)))).collect();
    c.family("renders", "films around the work unit size rendered by one worker, one and three samples per pixel; non-trivial: all", confs.len() as u64, |i, cx| {
        let (w, h, r, spp) = confs[i as usize];
        let off = |p: Point2i, k: u32, c: u32| { let v = mc::num::mix((p.x as u64 & 0xffff) << 32 | (p.y as u64 & 0xffff) << 16 | (k as u64) << 8 | c as u64); (v % 8) as f32 / 8. + 0.0703125 };
        let emit = |p: Point2f| { let v = mc::num::mix(((p.x * 8.).floor() as i64 as u64) << 24 ^ ((p.y * 8.).floor() as i64 as u64 & 0xffffff)); [(v & 255) as f64 / 256., (v >> 8 & 255) as f64 / 256., (v >> 16 & 255) as f64 / 256.] };
        let b = whole((w, h), r);
        let mut s = Vec::new();
        for y in b.min.y..b.max.y {
            for x in b.min.x..b.max.x {
                for k in 0..spp {
                    let q = Point2i::new(x, y);
                    let p = Point2f::new(x as f32 + off(q, k, 0), y as f32 + off(q, k, 1));
                    s.push(Sample { p: [p.x as f64, p.y as f64], l: emit(p) });
                }
            }
        }
        let img = image_of(|| {
            let film = Film::new(Point2u::new(w, h), cell_filter(r));
            let scene = wall_scene(Arc::new(move |p| { let e = emit(p); Spectrum::new(e[0] as f32, e[1] as f32, e[2] as f32) }));
            Integrator::new(scene, FnSampler::new(spp, off), RasterCamera, film).render(1);
        });
        match img.and_then(|i| judge(&i, r as f64, &|x, y| cells(x, y) as f32 as f64, &s)) {
            Err(e) => cx.fail(format!("{} x {}, radius {}, {} samples: {}", w, h, r, spp, e)),
            Ok(_) => cx.nontrivial(),
        }
        cx.sample(|| format!("{} x {}, radius {}, {} samples", w, h, r, spp));
    });
    c.finish();
}

fn perms4() -> Vec<[usize; 4]> {
    let mut v = Vec::new();
    for a in 0..4 { for b in 0..4 { for c in 0..4 { for d in 0..4 {
        if a != b && a != c && a != d && b != c && b != d && c != d { v.push([a, b, c, d]); }
    } } } }
    v
}
