//! C09: Halton samples of a pixel are the global Halton points inside that pixel.
use mc::{Check, Cx, Digits, Level};
use pt::api::*;
use pt::bbox::BBox2i;
use pt::sampler::Sampler;
use pt::vector::Point2i;
use std::collections::BTreeMap;

fn digits(b: u64, mut a: u64, e: u32) -> u64 { let mut x = 0; for _ in 0..e { x = x * b + a % b; a /= b; } x }
fn phi(base: u64, mut a: u64) -> f64 {
    let (mut x, mut f) = (0f64, 1f64);
    while a > 0 { f /= base as f64; x += (a % base) as f64 * f; a /= base; }
    x
}
fn grid(w: i32, h: i32) -> [(u64, u32); 2] {
    let f = |n: i32, b: u64| { let (mut s, mut e) = (1, 0); while s < n.min(128) as u64 { s *= b; e += 1; } (s, e) };
    [f(w, 2), f(h, 3)]
}

/// For every grid cell, the indices of the Halton points in it, ascending, found by trying all indices.
fn table(g: &[(u64, u32); 2], per: u64) -> BTreeMap<(u64, u64), Vec<u64>> {
    let mut t: BTreeMap<(u64, u64), Vec<u64>> = BTreeMap::new();
    for i in 0..g[0].0 * g[1].0 * per {
        // floor(phi_b(i) * b^e) is the number of the e lowest digits in reverse
        t.entry((digits(2, i, g[0].1), digits(3, i, g[1].1))).or_default().push(i);
    }
    t
}

/// Compare all samples of all pixels of a film with the table.  Observed: the camera sample and three more dimensions
/// (bases 5, 7, 11), which identify the index.
fn film(min: [i32; 2], w: i32, h: i32, spp: u32, step: i32, cx: &mut Cx) { part(min, w, h, [w, h], spp, step, cx) }

/// The pixels of the first `take` columns and rows only.
fn part(min: [i32; 2], w: i32, h: i32, take: [i32; 2], spp: u32, step: i32, cx: &mut Cx) {
    let g = grid(w, h);
    let t = table(&g, spp as u64);
    let mut s = HaltonSampler::new(spp, BBox2i::new(Point2i::new(min[0], min[1]), Point2i::new(min[0] + w, min[1] + h)));
    let mut used: BTreeMap<u64, [i32; 2]> = BTreeMap::new();
    let mut y = min[1];
    while y < min[1] + take[1].min(h) {
        let mut x = min[0];
        while x < min[0] + take[0].min(w) {
            let cell = ((x.rem_euclid(128) as u64) % g[0].0, (y.rem_euclid(128) as u64) % g[1].0);
            let list = &t[&cell];
            s.start_pixel(Point2i::new(x, y));
            for k in 0..spp {
                let what = || format!("film {:?} + {} x {}, sample {} of pixel ({}, {})", min, w, h, k, x, y);
                let ix = list[k as usize];
                let p = s.get_camera_sample(Point2i::new(x, y)).p_film;
                let rest = [s.get_1d(), s.get_1d(), s.get_1d()];
                for (d, b) in [5u64, 7, 11].iter().enumerate() {
                    if !((rest[d] as f64 - phi(*b, ix)).abs() <= 3e-7) {
                        cx.fail(format!("{}: is not index {} (dimension {} is {:e}, that index has {:e})", what(), ix, d + 2, rest[d], phi(*b, ix)));
                        return;
                    }
                }
                let want = [x as f64 + phi(2, ix / g[0].0), y as f64 + phi(3, ix / g[1].0)];
                let tol = 2e-7 * (2. + x.abs().max(y.abs()) as f64);
                if !((p.x as f64 - want[0]).abs() <= tol && (p.y as f64 - want[1]).abs() <= tol) {
                    cx.fail(format!("{}: the film position is {:?}, the point of index {} is {:?}", what(), p, ix, want));
                    return;
                }
                // the global point itself, on the grid, is in that pixel's cell at that position
                let glob = [phi(2, ix) * g[0].0 as f64 - cell.0 as f64, phi(3, ix) * g[1].0 as f64 - cell.1 as f64];
                if (glob[0] - (want[0] - x as f64)).abs() > 1e-9 || (glob[1] - (want[1] - y as f64)).abs() > 1e-9 || glob.iter().any(|v| *v < -1e-9 || *v >= 1.) {
                    cx.fail(format!("check: {} {:?} {:?}", what(), glob, want));
                    return;
                }
                // pixels of one period (non-negative ones) never share an index
                if x >= 0 && y >= 0 && x < 128 && y < 128 {
                    if let Some(q) = used.insert(ix, [x, y]) {
                        cx.fail(format!("{}: index {} is also used by pixel {:?}", what(), ix, q));
                        return;
                    }
                }
                cx.evals(1);
                if g[0].0 > 1 && g[1].0 > 1 { cx.nontrivials(1); }
                s.start_next_sample();
            }
            x += step;
        }
        y += step;
    }
    cx.sample(|| format!("film {:?} + {} x {}: grid {} x {}, {} samples each", min, w, h, g[0].0, g[1].0, spp));
}

fn main() {
    let mut c = Check::new("C09", Level::Exploration);
    c.assume("pixels at negative coordinates (the filter's margin) count as their place modulo 128, then modulo the grid");
    let n = c.pick(48u64, 130);
    c.family("small films", "every film size up to the bound at the origin, all pixels, 3 samples; non-trivial: both grid sides above 1", n * n, |i, cx| {
        film([0, 0], (i % n) as i32 + 1, (i / n) as i32 + 1, 3, 1, cx);
    });
    c.family("margins", "every film size up to 20 x 20 grown by a margin of 1..=3 pixels on each side, all pixels, 2 samples; non-trivial: both grid sides above 1", 20 * 20 * 3, |i, cx| {
        let mut d = Digits(i);
        let (w, h, m) = (d.take(20) as i32 + 1, d.take(20) as i32 + 1, d.take(3) as i32 + 1);
        film([-m, -m], w + 2 * m, h + 2 * m, 2, 1, cx);
    });
    let sizes = [(64, 81), (65, 82), (128, 27), (127, 128), (128, 128), (129, 130), (256, 243), (300, 20), (7, 400), (1, 128), (128, 1), (33, 244), (1000, 3)];
    c.family("large films", "films around the powers of 2 and 3 and beyond the 128-pixel period, all pixels, 2 samples; non-trivial: both grid sides above 1", sizes.len() as u64 * 2, |i, cx| {
        let (w, h) = sizes[(i / 2) as usize];
        film(if i % 2 == 0 { [0, 0] } else { [-2, -2] }, w, h, 2, 1, cx);
    });
    let spp = c.pick(40u32, 400);
    let many = [(1, 1), (2, 3), (5, 7), (16, 9), (20, 20), (128, 128)];
    c.family("many samples", "several films, pixels on a lattice, many samples per pixel; non-trivial: both grid sides above 1", many.len() as u64, |i, cx| {
        let (w, h) = many[i as usize];
        film([0, 0], w, h, spp, if w > 64 { 9 } else { 1 }, cx);
    });
    // pixels far from the origin, on both sides, at and around multiples of the period
    let far = [-1024, -512, -384, -256, -128, 0, 128, 256, 384, 1024, 65536, -65536];
    let fsize = [(1, 1), (2, 3), (5, 9), (20, 20), (64, 27), (128, 128), (200, 200)];
    c.family("far pixels", "films of seven sizes that begin 2 pixels before multiples of the 128-pixel period from -65536 to 65536 in x and y, the first 5 x 5 pixels (or fewer), 2 samples; non-trivial: both grid sides above 1", (far.len() * far.len() * fsize.len()) as u64, |i, cx| {
        let mut d = Digits(i);
        let (x, y, s) = (*d.of(&far), *d.of(&far), *d.of(&fsize));
        part([x - 2, y - 2], s.0, s.1, [5, 5], 2, 1, cx);
    });
    let co = [-1000, -256, -129, -128, -1, 0, 1, 2, 127, 128, 129, 255, 256, 512, 1000];
    let lat: Vec<[i32; 2]> = co.iter().flat_map(|x| co.iter().map(move |y| [*x, *y])).collect();
    c.family("visit pairs", "films 128 x 40 and 300 x 300: every ordered pair of the pixels of a lattice with coordinates from -1000 to 1000; the second pixel's samples are those a fresh sampler gives; non-trivial: different pixels", lat.len() as u64 * 2, |i, cx| {
        let (w, h) = [(128, 40), (300, 300)][(i % 2) as usize];
        let new = || HaltonSampler::new(2, BBox2i::new(Point2i::new(0, 0), Point2i::new(w, h)));
        let p = lat[(i / 2) as usize];
        for q in lat.iter() {
            let (a, b) = (Point2i::new(p[0], p[1]), Point2i::new(q[0], q[1]));
            let (mut s, mut f) = (new(), new());
            s.start_pixel(a);
            s.start_next_sample();
            s.start_pixel(b);
            f.start_pixel(b);
            for k in 0..2 {
                let (x, y) = (draw(&mut s, b), draw(&mut f, b));
                if x != y { cx.fail(format!("{} x {} film, pixel {:?} visited after {:?}: sample {} is {:?}, a fresh sampler gives {:?}", w, h, q, p, k, x, y)); return; }
                s.start_next_sample();
                f.start_next_sample();
            }
            cx.evals(1);
            if *q != p { cx.nontrivials(1); }
        }
    });
    // every order of visiting pixels gives the same indices (with revisits)
    let len = 6u32;
    c.family("visit orders", "7 x 5 film: every sequence of 6 visits among 5 pixels (revisits included), between 1 and 2 samples taken in each, compared with a fresh sampler; non-trivial: a revisit", 10u64.pow(len), |i, cx| {
        let px = [[0, 0], [1, 0], [6, 4], [-1, -1], [3, 2]];
        thread_local!(static T: Vec<Vec<[f32; 5]>> = px_table());
        T.with(|t| {
            let mut d = Digits(i);
            let mut s = HaltonSampler::new(2, BBox2i::new(Point2i::new(-1, -1), Point2i::new(8, 6)));
            let mut seen = 0u32;
            for step in 0..len {
                let (p, twice) = (d.take(5), d.take(2));
                if seen >> p & 1 == 1 && step == len - 1 { cx.nontrivial(); }
                seen |= 1 << p;
                let q = Point2i::new(px[p][0], px[p][1]);
                s.start_pixel(q);
                for k in 0..=twice {
                    let got = draw(&mut s, q);
                    if got != t[p][k] {
                        cx.fail(format!("visit {} of order {}: sample {} of pixel {:?} is {:?}, a fresh sampler gives {:?}", step, i, k, px[p], got, t[p][k]));
                        return;
                    }
                    s.start_next_sample();
                }
            }
        });
    });
    c.finish();
}

fn draw(s: &mut HaltonSampler, q: Point2i) -> [f32; 5] {
    let p = s.get_camera_sample(q).p_film;
    [p.x, p.y, s.get_1d(), s.get_1d(), s.get_1d()]
}

fn px_table() -> Vec<Vec<[f32; 5]>> {
    [[0, 0], [1, 0], [6, 4], [-1, -1], [3, 2]].iter().map(|p| {
        let mut s = HaltonSampler::new(2, BBox2i::new(Point2i::new(-1, -1), Point2i::new(8, 6)));
        let q = Point2i::new(p[0], p[1]);
        s.start_pixel(q);
        (0..2).map(|_| { let v = draw(&mut s, q); s.start_next_sample(); v }).collect()
    }).collect()
}
