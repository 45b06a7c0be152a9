//! C06: written channels are the rounded sRGB encoding of the pixel value.
use checks::*;
use mc::{Check, Digits, Level};
use pt::api::*;
use pt::bbox::BBox2i;
use pt::vector::Point2i;

/// Write one film whose pixels have exactly these values (three per pixel), one sample of the given weight each.
fn encode(values: &[f32], weight: f32) -> Result<Vec<u32>, String> {
    let n = (values.len() + 2) / 3;
    // one row per film keeps the sample positions exact
    let w = 512.min(n);
    let h = (n + w - 1) / w;
    thread_local!(static W: std::cell::Cell<f32> = std::cell::Cell::new(1.));
    W.with(|x| x.set(weight));
    let film = Film::new(Point2u::new(w as u32, h as u32), FnFilter { radius: 0.25, f: |_, _| W.with(|x| x.get()) });
    let mut tile = film.get_film_tile(BBox2i::new(Point2i::new(0, 0), Point2i::new(w as i32, h as i32)));
    for k in 0..n {
        let g = |c: usize| values.get(3 * k + c).copied().unwrap_or(0.);
        tile.add_sample(Point2f::new((k % w) as f32 + 0.5, (k / w) as f32 + 0.5), Spectrum::new(g(0), g(1), g(2)));
    }
    film.merge_film_tile(tile);
    let mut out = Vec::new();
    film.write_image_ppm(&mut out);
    let p = parse_ppm(&out)?;
    if (p.w, p.h) != (w, h) {
        return Err(format!("{} x {} instead of {} x {}", p.w, p.h, w, h));
    }
    Ok(p.px.iter().flat_map(|p| p.iter().cloned()).take(values.len()).collect())
}

/// Judge a block of values.
fn judge(values: &[f32], weight: f32, cx: &mut mc::Cx) {
    let got = match encode(values, weight) {
        Ok(g) => g,
        Err(e) => { cx.fail(e); return; }
    };
    cx.evals(values.len() as u64);
    for (v, g) in values.iter().zip(got) {
        let e = srgb255(*v as f64);
        // the encoding is computed in single precision: near a half both neighbours are right
        if (g as f64 - e).abs() > 0.5 + 1e-3 {
            cx.fail(format!("the value {:e} (weight {}) is written as {}, its sRGB encoding is {:.4}", v, weight, g, e));
            return;
        }
        if *v == 0. && g != 0 || *v >= 1. && g != 255 {
            cx.fail(format!("the value {:e} (weight {}) is written as {}", v, weight, g));
            return;
        }
        if g > 0 && g < 255 { cx.nontrivials(1); }
    }
}

fn main() {
    let mut c = Check::new("C06", Level::Exploration);
    // all floats from +0 to 1, in order
    let one = 1f32.to_bits() as u64;
    let step = c.pick(64u64, 1);
    const BLOCK: u64 = 3072;
    let n = one / step + 1;
    c.family("values in [0, 1]", "every step-th single precision number from 0 to 1 (step 64 quick, 1 thorough); non-trivial: neither black nor white", (n + BLOCK - 1) / BLOCK, |i, cx| {
        let v: Vec<f32> = (i * BLOCK..((i + 1) * BLOCK).min(n)).map(|k| f32::from_bits((k * step) as u32)).collect();
        judge(&v, 1., cx);
        cx.sample(|| format!("{:e}..{:e}", v[0], v[v.len() - 1]));
    });
    c.family("thresholds", "all floats within 1536 of every rounding threshold, every exact level and the joint of the encoding; non-trivial: neither black nor white", 255 * 2 + 2, |i, cx| {
        let x = if i < 510 { linear((i + 1) as f64 / 2.) } else if i == 510 { 0.0031308 } else { 1. } as f32;
        let b = x.to_bits() as i64;
        let v: Vec<f32> = (-1536..1536).map(|k| f32::from_bits((b + k).max(0) as u32)).collect();
        judge(&v, 1., cx);
        cx.sample(|| format!("around {:e}", x));
    });
    c.family("values above 1", "every 4096-th float from 1 to the largest; non-trivial: all", 1, |_, cx| {
        let v: Vec<f32> = (one..f32::MAX.to_bits() as u64).step_by(4096).map(|b| f32::from_bits(b as u32)).chain([f32::MAX]).collect();
        judge(&v, 1., cx);
        cx.nontrivials(v.len() as u64);
        cx.sample(|| format!("{} values", v.len()));
    });
    let weights = [0.001f32, 0.125, 0.3, 0.5, 2., 100., 1e-4, 1e-7, 1e-12, 1e-20, 1e-30, 1e6, 1e12, 1e30];
    c.family("weights", "the level grid (k/8 on the 255 scale) under several sample weights; non-trivial: neither black nor white", weights.len() as u64, |i, cx| {
        let v: Vec<f32> = (0..=2040).map(|k| linear(k as f64 / 8.) as f32).collect();
        judge_weighted(&v, weights[i as usize], cx);
        cx.sample(|| format!("weight {}", weights[i as usize]));
    });
    // monotone: in the order of the pixel value
    c.case("monotone", "a fine ramp 0..=1 in 3 x 65536 steps is written in ascending order", |cx| {
        let v: Vec<f32> = (0..=196608).map(|k| k as f32 / 196608.).collect();
        match encode(&v, 1.) {
            Ok(g) => {
                cx.evals(g.len() as u64);
                cx.nontrivials(g.len() as u64);
                let bad = (1..g.len()).find(|&k| g[k] < g[k - 1]);
                cx.check(bad.is_none(), || { let k = bad.unwrap(); format!("{} is written as {} but {} as {}", v[k - 1], g[k - 1], v[k], g[k]) });
                let levels: std::collections::BTreeSet<u32> = g.iter().cloned().collect();
                cx.check(levels.len() == 256, || format!("only {} levels are written", levels.len()));
            }
            Err(e) => cx.fail(e),
        }
    });
    // pixels without samples, among others
    c.family("pixels without samples", "every subset of the 9 pixels of a 3 x 3 film receives a white sample, the others none; and every subset of 4 with weight 0 samples; non-trivial: some without", 512 + 16 * 3, |i, cx| {
        if i < 512 {
            if i != 511 { cx.nontrivial(); }
            subset(3, 3, i, 1., 1., cx);
        } else {
            let mut d = Digits(i - 512);
            let s = d.take(16) as u64;
            cx.nontrivial();
            // every sample has weight 0: nothing was received
            subset(2, 2, s, 0., *d.of(&[0., 0.5, 1.]), cx);
        }
    });
    c.finish();
}

fn judge_weighted(values: &[f32], weight: f32, cx: &mut mc::Cx) {
    let got = match encode(values, weight) {
        Ok(g) => g,
        Err(e) => { cx.fail(e); return; }
    };
    cx.evals(values.len() as u64);
    for (v, g) in values.iter().zip(got) {
        let e = srgb255(*v as f64);
        if (g as f64 - e).abs() > 0.5 + 2e-3 {
            cx.fail(format!("the value {:e} (weight {}) is written as {}, its sRGB encoding is {:.4}", v, weight, g, e));
            return;
        }
        if g > 0 && g < 255 { cx.nontrivials(1); }
    }
}

fn subset(w: u32, h: u32, mask: u64, weight: f32, value: f32, cx: &mut mc::Cx) {
    let film = Film::new(Point2u::new(w, h), FnFilter { radius: 0.25, f: if weight == 0. { |_, _| 0. } else { |_, _| 1. } });
    let mut tile = film.get_film_tile(BBox2i::new(Point2i::new(0, 0), Point2i::new(w as i32, h as i32)));
    for k in 0..(w * h) {
        if mask >> k & 1 == 1 {
            tile.add_sample(Point2f::new((k % w) as f32 + 0.5, (k / w) as f32 + 0.5), Spectrum::from(value));
        }
    }
    film.merge_film_tile(tile);
    let mut out = Vec::new();
    film.write_image_ppm(&mut out);
    match parse_ppm(&out) {
        Err(e) => cx.fail(e),
        Ok(p) => {
            for k in 0..(w * h) as usize {
                let want = if mask >> k & 1 == 1 && weight > 0. { 255 } else { 0 };
                if p.px[k] != [want; 3] {
                    cx.fail(format!("samples {:#b} of weight {}: pixel {} is written as {:?}, expected {}", mask, weight, k, p.px[k], want));
                    break;
                }
            }
        }
    }
    cx.sample(|| format!("samples {:#b} weight {}", mask, weight));
}
