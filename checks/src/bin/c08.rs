//! C08: Halton samples are a pure function of pixel, sample number and dimension.
use mc::{Check, Cx, Digits, Level};
use pt::api::*;
use pt::bbox::BBox2i;
use pt::sampler::Sampler;
use pt::vector::Point2i;

fn primes(n: usize) -> Vec<u64> {
    let mut v: Vec<u64> = Vec::new();
    let mut k = 2;
    while v.len() < n {
        if v.iter().take_while(|p| *p * *p <= k).all(|p| k % p != 0) { v.push(k); }
        k += 1;
    }
    v
}

fn phi(base: u64, mut a: u64) -> f64 {
    let (mut x, mut f) = (0f64, 1f64);
    while a > 0 {
        f /= base as f64;
        x += (a % base) as f64 * f;
        a /= base;
    }
    x
}

fn sampler(spp: u32, w: i32, h: i32) -> HaltonSampler {
    HaltonSampler::new(spp, BBox2i::new(Point2i::new(0, 0), Point2i::new(w, h)))
}

/// The sampling grid of a film: the smallest powers of 2 and 3 that cover its extent, at most 128.
fn grid(w: i32, h: i32) -> [(u64, u32); 2] {
    let f = |n: i32, b: u64| { let (mut s, mut e) = (1, 0); while s < n.min(128) as u64 { s *= b; e += 1; } (s, e) };
    [f(w, 2), f(h, 3)]
}

/// Index of sample k of pixel p: the k-th whose first two coordinates fall into the pixel.
fn index(g: &[(u64, u32); 2], p: [i32; 2], k: u64) -> u64 {
    let stride = g[0].0 * g[1].0;
    let want = [(p[0].rem_euclid(128) as u64) % g[0].0, (p[1].rem_euclid(128) as u64) % g[1].0];
    for i in 0..stride {
        let d = |b: u64, e: u32| { let (mut x, mut a) = (0, i); for _ in 0..e { x = x * b + a % b; a /= b; } x };
        if d(2, g[0].1) == want[0] && d(3, g[1].1) == want[1] { return i + k * stride; }
    }
    unreachable!()
}

fn value(pr: &[u64], g: &[(u64, u32); 2], index: u64, dim: usize) -> f64 {
    match dim {
        0 | 1 => phi(pr[dim], index / g[dim].0),
        d => phi(pr[d], index),
    }
}

fn close(got: f32, want: f64) -> bool { got >= 0. && got < 1. && (got as f64 - want).abs() <= 3e-7 }

fn all_dims(s: &mut HaltonSampler, pr: &[u64], g: &[(u64, u32); 2], ix: u64, pairs: bool, what: &dyn Fn() -> String, cx: &mut Cx) {
    let mut d = 0;
    while d < 1024 {
        let got: Vec<f32> = if pairs { let p = s.get_2d(); vec![p.x, p.y] } else { vec![s.get_1d()] };
        for v in got {
            let want = value(pr, g, ix, d);
            if !close(v, want) {
                cx.fail(format!("{}: dimension {} of index {} is {:e}, the radical inverse in base {} is {:e}", what(), d, ix, v, pr[d], want));
                return;
            }
            if want != 0. { cx.nontrivials(1); }
            d += 1;
        }
    }
    cx.evals(1024);
    cx.sample(|| format!("{}: index {}", what(), ix));
}

fn main() {
    let mut c = Check::new("C08", Level::Exploration);
    let pr = primes(1024);
    // stride 1: index = sample number
    let n = c.pick(65_536u32, 1 << 22);
    const B: u32 = 256;
    c.family("small indices", "one-pixel film (index = sample number): every sample number below the bound, all 1024 dimensions, drawn singly and in pairs; non-trivial: values other than 0", (n / B) as u64 * 2, |i, cx| {
        let (b, pairs) = ((i / 2) as u32, i % 2 == 1);
        let mut s = sampler(n, 1, 1);
        let g = grid(1, 1);
        s.start_pixel(Point2i::new(0, 0));
        for _ in 0..b * B { s.start_next_sample(); }
        for k in b * B..(b + 1) * B {
            all_dims(&mut s, &pr, &g, k as u64, pairs, &|| format!("sample {} of the only pixel", k), cx);
            if cx.failed() { return; }
            s.start_next_sample();
        }
    });
    let m = c.pick(3000u32, 60_000);
    let px = [[0, 0], [1, 0], [0, 1], [127, 127], [64, 81], [5, 126], [-1, -1]];
    c.family("large indices", "128 x 128 film (31104 indices per sample number): sample numbers spread up to the end of the 32-bit index range, all 1024 dimensions; non-trivial: values other than 0", m as u64 * px.len() as u64, |i, cx| {
        let p = px[(i % px.len() as u64) as usize];
        let k = ((i / px.len() as u64) * 138_080 / (m as u64 - 1)) as u32;
        let mut s = sampler(200_000, 128, 128);
        let g = grid(128, 128);
        s.start_pixel(Point2i::new(p[0], p[1]));
        for _ in 0..k { s.start_next_sample(); }
        let ix = index(&g, p, k as u64);
        if ix > u32::MAX as u64 { return; }
        all_dims(&mut s, &pr, &g, ix, i & 1 == 1, &|| format!("sample {} of pixel {:?}", k, p), cx);
    });
    // around the digit boundaries of each base
    c.family("digit boundaries", "films of every grid, sample numbers 0..64 of 5 pixels, all dimensions; non-trivial: values other than 0", 8 * 6 * 5, |i, cx| {
        let mut d = Digits(i);
        let (w, h) = (*d.of(&[1, 2, 4, 8, 16, 32, 64, 128]), *d.of(&[1, 3, 9, 27, 81, 128]));
        let p = [[0, 0], [w - 1, h - 1], [w / 2, h / 3], [w - 1, 0], [0, h - 1]][d.take(5)];
        let mut s = sampler(64, w, h);
        let g = grid(w, h);
        s.start_pixel(Point2i::new(p[0], p[1]));
        for k in 0..64 {
            all_dims(&mut s, &pr, &g, index(&g, p, k), k % 2 == 0, &|| format!("{} x {} film, sample {} of pixel {:?}", w, h, k, p), cx);
            if cx.failed() { return; }
            s.start_next_sample();
        }
    });
    // every word of operations over two or three pixels: the state is (pixel, sample, dimension), nothing else
    let spp = 3u32;
    for (w, h) in [(5, 4), (128, 40), (1, 1)] {
        let g = grid(w, h);
        let pix = [[0, 0], [(w - 1).min(3), h - 1], [w - 1, 0]];
        let ixs: Vec<Vec<u64>> = pix.iter().map(|p| (0..4).map(|k| index(&g, *p, k)).collect()).collect();
        let len = c.pick(7u32, 8);
        c.family(&format!("operation words {}x{}", w, h), "every word of the operations start pixel (3 pixels), next sample, draw one, draw two, clone (continue on the copy), clone (continue on the original after disturbing the copy); every drawn value is compared; non-trivial: at least two values drawn", 8u64.pow(len), |i, cx| {
            let mut d = Digits(i);
            let mut s = sampler(spp, w, h);
            s.start_pixel(Point2i::new(pix[0][0], pix[0][1]));
            let (mut p, mut k, mut dim, mut drawn) = (0usize, 0usize, 0usize, 0);
            for step in 0..len {
                match d.take(8) {
                    n @ 0..=2 => { s.start_pixel(Point2i::new(pix[n][0], pix[n][1])); p = n; k = 0; dim = 0; }
                    3 => {
                        if k + 1 > spp as usize { return; }
                        let more = s.start_next_sample();
                        k += 1;
                        dim = 0;
                        if more != (k < spp as usize) {
                            cx.fail(format!("after {} samples of {} the sampler says {}", k, spp, more));
                            return;
                        }
                        // the pixel is complete: only a new one may be started
                        if !more { s.start_pixel(Point2i::new(pix[p][0], pix[p][1])); k = 0; }
                    }
                    n @ 4..=5 => {
                        let got: Vec<f32> = if n == 4 { vec![s.get_1d()] } else { let q = s.get_2d(); vec![q.x, q.y] };
                        for v in got {
                            let want = value(&pr, &g, ixs[p][k], dim);
                            if !close(v, want) {
                                cx.fail(format!("operation {} of word {:o} (film {} x {}): dimension {} of sample {} of pixel {:?} is {:e}, expected {:e}", step, i, w, h, dim, k, pix[p], v, want));
                                return;
                            }
                            dim += 1;
                            drawn += 1;
                        }
                    }
                    6 => s = s.clone(),
                    _ => { let mut t = s.clone(); t.get_2d(); t.start_next_sample(); t.start_pixel(Point2i::new(1, 1)); t.get_1d(); }
                }
            }
            if drawn > 1 { cx.nontrivial(); }
            cx.sample(|| format!("word {:o}: {} values", i, drawn));
        });
    }
    // where the digits of the index roll over: just below and at multiples of the high powers of every base
    let top = 1u64 << 32;
    let low = c.pick(1u64 << 25, 1 << 22);
    let mut at: Vec<Vec<u64>> = vec![Vec::new(); 128];
    for b in pr.iter() {
        let mut q = *b;
        while q < low { q *= b; }
        while q < top {
            let mut j = q;
            while j <= top { for ix in [j - 1, j] { if ix < top { at[(ix % 128) as usize].push(ix); } } j += q; }
            q *= b;
        }
    }
    for v in at.iter_mut() { v.sort(); v.dedup(); }
    c.family("high digits", "128 x 1 film (128 indices per sample number), every pixel: all indices up to 2^32 that are a multiple of a high power (2^25 and more; thorough 2^22) of one of the 1024 bases, or one below, all 1024 dimensions; non-trivial: values other than 0", 128, |i, cx| {
        let g = grid(128, 1);
        let mut s = sampler(u32::MAX, 128, 1);
        let p = [i as i32, 0];
        s.start_pixel(Point2i::new(p[0], p[1]));
        let off = index(&g, p, 0);
        let mut k = 0u64;
        for ix in at[off as usize].iter() {
            let to = ix / 128;
            while k < to { s.start_next_sample(); k += 1; }
            all_dims(&mut s.clone(), &pr, &g, *ix, k & 1 == 1, &|| format!("sample {} of pixel {:?} of a 128 x 1 film", k, p), cx);
            if cx.failed() { return; }
        }
    });
    // a pixel's samples do not depend on the pixel visited before
    let co = [-1000, -257, -256, -129, -128, -127, -2, -1, 0, 1, 2, 126, 127, 128, 129, 255, 256, 257, 512, 1000];
    let lat: Vec<[i32; 2]> = co.iter().flat_map(|x| co.iter().map(move |y| [*x, *y])).collect();
    c.family("visit pairs", "films 128 x 40, 5 x 4 and 300 x 300: every ordered pair of the pixels of a lattice with coordinates from -1000 to 1000; the second pixel's samples are those of a fresh sampler; non-trivial: different pixels", lat.len() as u64 * 3, |i, cx| {
        let (w, h) = [(128, 40), (5, 4), (300, 300)][(i % 3) as usize];
        let p = lat[(i / 3) as usize];
        let g = grid(w, h);
        for q in lat.iter() {
            let mut s = sampler(3, w, h);
            s.start_pixel(Point2i::new(p[0], p[1]));
            s.start_next_sample();
            s.get_2d();
            s.start_pixel(Point2i::new(q[0], q[1]));
            for k in 0..2u64 {
                let ix = index(&g, *q, k);
                let a = s.get_2d();
                let got = [a.x, a.y, s.get_1d(), s.get_1d()];
                for d in 0..4 {
                    let want = value(&pr, &g, ix, d);
                    if !close(got[d], want) {
                        cx.fail(format!("{} x {} film, pixel {:?} visited after {:?}: dimension {} of sample {} is {:e}, expected {:e}", w, h, q, p, d, k, got[d], want));
                        return;
                    }
                }
                s.start_next_sample();
            }
            cx.evals(1);
            if *q != p { cx.nontrivials(1); }
        }
    });
    c.finish();
}
