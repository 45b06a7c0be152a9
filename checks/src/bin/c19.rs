//! C19: scattering samples follow the reported density and evaluated value.
use checks::scatter::*;
use checks::*;
use mc::num::*;
use mc::{Check, Digits, Level};
use pt::reflection::{DIFFUSE, GLOSSY, REFLECTION, SPECULAR, TRANSMISSION};
use pt::vector::Point2f;
use std::f64::consts::TAU;

fn materials(thorough: bool) -> Vec<Mat> {
    let mut m = vec![Mat::Matte([0.5, 0.25, 1.]), Mat::Matte([1., 0., 0.]), Mat::Plastic(0.5, 0.5, 0.), Mat::Plastic(0.5, 0., 0.3), Mat::Plastic(0., 0.5, 0.3)];
    let al: Vec<(f32, f32)> = if thorough { vec![(0.2, 0.2), (0.35, 0.35), (0.5, 0.5), (1., 1.), (0.2, 0.6), (0.6, 0.2), (0.9, 0.25), (0.3, 1.)] } else { vec![(0.25, 0.25), (0.6, 0.6), (0.25, 0.7), (0.8, 0.3)] };
    for (u, v) in al {
        m.push(Mat::Metal(0.9, [0.2, 0.92, 1.1], [3.9, 2.45, 2.14], u, v));
        m.push(Mat::Plastic(0.4, 0.6, u));
        for e in [1.5f32, 0.75] { for (r, t) in [(1., 1.), (1., 0.), (0., 1.)] { m.push(Mat::Glass(r, t, e, u, v)); } }
    }
    m
}

fn main() {
    let mut c = Check::new("C19", Level::Exploration);
    let mats = materials(c.thorough());
    let frames = [Frame::plain(), Frame::new([0.3, -0.5, 0.8], 0., 0.7), Frame::new([-1., 0.2, 0.1], 0.35, 2.), Frame::new([0., 0.1, -1.], -0.6, -1.)];
    let cosines = [0.999, 0.8, 0.45, 0.15, 4e-3];
    let phis = [0.4, 1.9];
    let n = c.pick(768usize, 2048);
    let (bz, bp, q) = (12usize, 12usize, c.pick(40usize, 96));
    c.family("distribution", "matte, metal, glass, plastic with several roughnesses (equal and unequal), 4 angles (matte: also grazing) from both sides and 2 azimuths: the complete n x n lattice of samples (n = 768, thorough 2048) counted in 144 cells of the sphere of directions, against the integral of the reported density over each cell; the density's total; non-trivial: cells that receive samples", (mats.len() * cosines.len() * 2 * phis.len()) as u64, |i, cx| {
        let mut d = Digits(i);
        let (m, cs, side, ph) = (*d.of(&mats), *d.of(&cosines), d.take(2), *d.of(&phis));
        // the density of rough lobes is too steep there for the sum over a cell; see the next family
        if cs < 0.1 && !matches!(m, Mat::Matte(_)) { return; }
        let f = frames[(i % 2) as usize];
        let wo = v3(f.world(polar(if side == 0 { cs } else { -cs }, ph)));
        let b = f.bsdf(&m);
        let what = || format!("{:?}, normal {:?}, seen along {:?} (cosine {}, azimuth {})", m, f.sn, wo, if side == 0 { cs } else { -cs }, ph);
        let cell = |w: [f64; 3]| -> usize {
            let l = f.local(w);
            let z = (((l[2] + 1.) / 2. * bz as f64) as usize).min(bz - 1);
            let p = ((l[1].atan2(l[0]) + TAU) % TAU / TAU * bp as f64) as usize;
            z * bp + p.min(bp - 1)
        };
        let mut hist = vec![0f64; bz * bp];
        for k in 0..n * n {
            let u = Point2f::new(((k % n) as f32 + 0.5) / n as f32, ((k / n) as f32 + 0.5) / n as f32);
            let (wi, _, pdf, flag) = b.sample_f(wo, u);
            if pdf == 0. || flag & SPECULAR != 0 { continue; }
            if !(pdf > 0. && pdf.is_finite()) { cx.fail(format!("{}: sample {:?} has density {}", what(), u, pdf)); return; }
            hist[cell(a3(wi))] += 1. / (n * n) as f64;
        }
        cx.evals((n * n) as u64);
        let mut total = 0.;
        let mut worst = 0f64;
        for z in 0..bz { for p in 0..bp {
            let (t0, t1) = ((-1. + 2. * z as f64 / bz as f64).acos(), (-1. + 2. * (z + 1) as f64 / bz as f64).min(1.).acos());
            let mut sum = 0.;
            for a in 0..q { for e in 0..q {
                // even steps of the angle: narrow lobes sit at the poles
                let cz = (t0 + (t1 - t0) * (a as f64 + 0.5) / q as f64).cos();
                let w = f.world(polar(cz, (p as f64 + (e as f64 + 0.5) / q as f64) / bp as f64 * TAU));
                let v = b.pdf(wo, v3(w)) as f64;
                if !(v >= 0. && v.is_finite()) { cx.fail(format!("{}: density {} for direction {:?}", what(), v, w)); return; }
                sum += v * (1. - cz * cz).max(0.).sqrt();
            } }
            let want = sum * (t0 - t1) * (TAU / bp as f64) / (q * q) as f64;
            total += want;
            let got = hist[z * bp + p];
            cx.nontrivials((got > 0.) as u64);
            worst = worst.max((got - want).abs());
            if !((got - want).abs() <= 0.0025 + 0.04 * want.max(got)) {
                cx.fail(format!("{}: the cell of directions with cosines {:.3}..{:.3}, azimuths {:.3}..{:.3} receives {:.5} of the samples, the density gives {:.5}", what(), -1. + 2. * z as f64 / bz as f64, -1. + 2. * (z + 1) as f64 / bz as f64, p as f64 * TAU / bp as f64, (p + 1) as f64 * TAU / bp as f64, got, want));
                return;
            }
        } }
        cx.evals((bz * bp * q * q) as u64);
        if total > 1.02 { cx.fail(format!("{}: the density integrates to {}", what(), total)); return; }
        cx.sample(|| format!("{}: samples and density agree to {:.5}, total {:.4}", what(), worst, total));
    });
    // the same in small cells
    let (n, bz, bp, q) = (c.pick(1536usize, 2560), 96usize, 96usize, 5usize);
    let fine = vec![Mat::Matte([0.5, 0.25, 1.]), Mat::Metal(0.9, [0.2, 0.92, 1.1], [3.9, 2.45, 2.14], 0.5, 0.5), Mat::Metal(0.9, [0.2, 0.92, 1.1], [3.9, 2.45, 2.14], 0.4, 0.8), Mat::Plastic(0., 0.5, 0.7), Mat::Plastic(0.5, 0.5, 0.7), Mat::Glass(1., 0., 1.5, 0.6, 0.6), Mat::Glass(0., 1., 1.5, 0.6, 0.6), Mat::Glass(1., 1., 0.75, 0.9, 0.5)];
    let cosines = [1., 0.8, 0.5];
    c.family("fine", "matte, metal, glass, plastic, roughness 0.4 to 0.9, 3 angles from both sides: the n x n lattice of samples (n = 1536, thorough 2560) counted in 96 x 96 cells of the sphere of directions against the integral of the density; blocks of 2 x 2 cells with a share of at least 3e-4 may differ by 20 percent; non-trivial: such blocks", (fine.len() * cosines.len() * 2) as u64, |i, cx| {
        let mut d = Digits(i);
        let (m, cs, side) = (*d.of(&fine), *d.of(&cosines), d.take(2));
        let f = frames[(i % 2) as usize];
        let wo = v3(f.world(polar(if side == 0 { cs } else { -cs }, 0.4)));
        let b = f.bsdf(&m);
        let what = || format!("{:?}, normal {:?}, seen along {:?} (cosine {})", m, f.sn, wo, if side == 0 { cs } else { -cs });
        let (mut hist, mut want) = (vec![0f64; bz * bp], vec![0f64; bz * bp]);
        for k in 0..n * n {
            let u = Point2f::new(((k % n) as f32 + 0.5) / n as f32, ((k / n) as f32 + 0.5) / n as f32);
            let (wi, _, pdf, flag) = b.sample_f(wo, u);
            if pdf == 0. || flag & SPECULAR != 0 { continue; }
            let l = f.local(a3(wi));
            let z = (((l[2] + 1.) / 2. * bz as f64) as usize).min(bz - 1);
            let p = ((l[1].atan2(l[0]) + TAU) % TAU / TAU * bp as f64) as usize;
            hist[z * bp + p.min(bp - 1)] += 1. / (n * n) as f64;
        }
        for z in 0..bz { for p in 0..bp {
            for a in 0..q { for e in 0..q {
                let cz = -1. + 2. * (z as f64 + (a as f64 + 0.5) / q as f64) / bz as f64;
                let w = f.world(polar(cz, (p as f64 + (e as f64 + 0.5) / q as f64) / bp as f64 * TAU));
                want[z * bp + p] += b.pdf(wo, v3(w)) as f64 * 2. * TAU / (bz * bp * q * q) as f64;
            } }
        } }
        cx.evals((n * n + bz * bp * q * q) as u64);
        let mut worst = 0f64;
        for z in 0..bz - 1 { for p in 0..bp {
            let block = |v: &Vec<f64>| (0..4).map(|k| v[(z + k / 2) * bp + (p + k % 2) % bp]).sum::<f64>();
            let (g, w) = (block(&hist), block(&want));
            if w.max(g) < 3e-4 { continue; }
            cx.nontrivials(1);
            worst = worst.max((g - w).abs() / w.max(g));
            if !((g - w).abs() <= 0.2 * w.max(g)) {
                cx.fail(format!("{}: the directions with cosines {:.3}..{:.3}, azimuths {:.3}..{:.3} receive {:.6} of the samples, the density gives {:.6}", what(), -1. + 2. * z as f64 / bz as f64, -1. + 2. * (z + 2) as f64 / bz as f64, p as f64 * TAU / bp as f64, (p + 2) as f64 * TAU / bp as f64, g, w));
                return;
            }
        } }
        cx.sample(|| format!("{}: worst {:.3}", what(), worst));
    });
    // the map from sample numbers to directions, cell by cell
    let mut lone = vec![Mat::Matte([0.5, 0.25, 1.])];
    let al: &[(f32, f32)] = c.pick(&[(0.06, 0.06), (0.3, 0.3), (0.3, 0.35), (1., 1.), (0.06, 0.9), (0.7, 0.65)], &[(0.03, 0.03), (0.06, 0.06), (0.15, 0.15), (0.3, 0.3), (0.3, 0.35), (0.3, 0.302), (1., 1.), (0.06, 0.9), (0.9, 0.06), (0.7, 0.65), (0.1, 0.11)]);
    for (u, v) in al {
        lone.push(Mat::Metal(0.9, [0.2, 0.92, 1.1], [3.9, 2.45, 2.14], *u, *v));
        if u == v { lone.push(Mat::Plastic(0., 0.6, *u)); }
        for e in [1.5f32, 0.75] { lone.push(Mat::Glass(1., 0., e, *u, *v)); lone.push(Mat::Glass(0., 1., e, *u, *v)); }
    }
    let steep = [1., 0.97, 0.7, 0.3, 0.05, 5e-3, 1e-4];
    let edge = 6usize;
    // steps, corner and size of a lattice
    let mut lat: Vec<(usize, usize, f64, f64, f64)> = c.pick(&[(128, 128), (1024, 32), (32, 1024)], &[(256, 256), (2048, 64), (64, 2048)]).iter().map(|(x, y)| (*x, *y, 0., 0., 1.)).collect();
    for h in [1. / 32., 1. / 1024.] { for x in 0..5 { for y in 0..5 { lat.push((if h < 0.01 { 9 } else { 24 }, if h < 0.01 { 9 } else { 24 }, (x as f64 / 4. - h / 2.).max(0.).min(1. - h), (y as f64 / 4. - h / 2.).max(0.).min(1. - h), h)); } } }
    c.family("cells", "matte, metal, glossy plastic, glass that only reflects or only transmits (one lobe each), roughness 0.06 to 1, equal, unequal and nearly equal, 7 angles down to grazing from both sides: the solid angle that each cell of the complete 128 x 128, 1024 x 32 and 32 x 1024 lattices of sample numbers (thorough: twice that), and of 24 x 24 lattices in squares of side 1/32 (roughness from 0.3 up: also 9 x 9 in 1/1024) around the 25 points with coordinates 0, 1/4 ... 1 is mapped to, times the reported density there, is the cell's area; a block of 6 x 6 cells that all disagree by more than 8 percent fails (single rows may: seams of the map, ends of the interval, rounding); non-trivial: cells", (lone.len() * steep.len() * 2) as u64, |i, cx| {
        let mut d = Digits(i);
        let (m, cs, side) = (*d.of(&lone), *d.of(&steep), d.take(2));
        let f = frames[(i % 2) as usize];
        let wo = v3(f.world(polar(if side == 0 { cs } else { -cs }, 0.4)));
        let b = f.bsdf(&m);
        let mut off = 0;
        for (nx, ny, x0, y0, size) in lat.iter() {
            let (nx, ny, x0, y0, size) = (*nx, *ny, *x0, *y0, *size);
            // narrow lobes: the cosine of the microfacet has only 24 bits
            let least = match m { Mat::Metal(_, _, _, u, v) | Mat::Glass(_, _, _, u, v) => u.min(v) as f64, Mat::Plastic(_, _, u) => u as f64, _ => 1. };
            if least < 0.06 && cs < 0.01 || least * least * size / (nx as f64) < 2e-6 || size < 0.01 && least < 0.3 { continue; }
            let w = nx + 1;
            let mut dir: Vec<Option<[f64; 3]>> = vec![];
            for k in 0..w * (ny + 1) {
                let at = |o: f64, x: usize, n: usize| ((o + size * x as f64 / n as f64) as f32).min(0.99999994);
                let (w, _, pdf, _) = b.sample_f(wo, Point2f::new(at(x0, k % w, nx), at(y0, k / w, ny)));
                dir.push(if pdf > 0. { Some(a3(w)) } else { None });
            }
            cx.evals((w * (ny + 1)) as u64);
            let mut bad = vec![0u32; w * (ny + 1)];
            let mut note = (0., 0.);
            for y in 0..ny { for x in 0..nx {
                let k = y * w + x;
                let (p, q, r, t) = match (dir[k], dir[k + 1], dir[k + w], dir[k + w + 1]) { (Some(p), Some(q), Some(r), Some(t)) => (p, q, r, t), _ => continue };
                let area = len(cross(sub(t, p), sub(r, q))) / 2.;
                let mid = norm(add(add(p, q), add(r, t)));
                let got = area * b.pdf(wo, v3(mid)) as f64 * (nx * ny) as f64 / (size * size);
                cx.nontrivials(1);
                if !((got - 1.).abs() <= 0.08) { bad[k] = 1; off += 1; note = (got, area); }
            } }
            cx.evals((nx * ny) as u64);
            // sums over rectangles
            let mut sum = vec![0u32; w * (ny + 1)];
            for y in 0..=ny { for x in 0..w {
                let g = |x: usize, y: usize| sum[y * w + x];
                sum[y * w + x] = bad[y * w + x] + if x > 0 { g(x - 1, y) } else { 0 } + if y > 0 { g(x, y - 1) } else { 0 } - if x > 0 && y > 0 { g(x - 1, y - 1) } else { 0 };
                if x >= edge && y >= edge {
                    let g = |x: usize, y: usize| sum[y * w + x];
                    if g(x, y) + g(x - edge, y - edge) - g(x - edge, y) - g(x, y - edge) == (edge * edge) as u32 {
                        cx.fail(format!("{:?}, normal {:?}, seen along {:?} (cosine {}): sample numbers around ({:.4}, {:.4}) are not mapped as the density says (lately a cell's solid angle {:.3e}, share {:.3})", m, f.sn, wo, if side == 0 { cs } else { -cs }, x0 + size * (x - edge / 2) as f64 / nx as f64, y0 + size * (y - edge / 2) as f64 / ny as f64, note.1, note.0));
                        return;
                    }
                }
            } }
        }
        cx.sample(|| format!("{:?}, seen along {:?}: {} cells off", m, wo, off));
    });
    // each sample agrees with an evaluation of its pair of directions
    let g = c.pick(48usize, 160);
    let mut more = mats.clone();
    more.extend([Mat::Mirror([0.5, 1., 0.]), Mat::Glass(1., 1., 1.5, 0., 0.), Mat::Metal(1., [0.2, 0.9, 1.], [3., 2., 2.], 0., 0.), Mat::Matte([0., 0., 0.]), Mat::Glass(0., 0., 1.5, 0.2, 0.2), Mat::Plastic(0., 0., 0.3)]);
    let cosines2 = [1., 0.95, 0.7, 0.4, 0.2, 0.06, 4e-3];
    c.family("pairs", "the same and smooth materials in 4 frames, two of them with the shading normal tilted against the geometric one, 7 angles from both sides and 2 azimuths, a g x g lattice of samples (g = 48, thorough 160): value and density returned with a non-specular sample against those of the pair, lobe kind against the side; non-trivial: samples", (more.len() * frames.len() * cosines2.len() * 2 * phis.len()) as u64, |i, cx| {
        let mut d = Digits(i);
        let (m, f, cs, side, ph) = (*d.of(&more), *d.of(&frames), *d.of(&cosines2), d.take(2), *d.of(&phis));
        let wo = v3(f.world(polar(if side == 0 { cs } else { -cs }, ph)));
        if dot(a3(wo), f.gn).abs() < 1e-3 { return; }
        let b = f.bsdf(&m);
        let what = || format!("{:?}, normals {:?} and {:?}, seen along {:?}", m, f.gn, f.sn, wo);
        for k in 0..g * g {
            let u = Point2f::new((k % g) as f32 / g as f32, ((k / g) as f32 + 0.5) / g as f32);
            let (wi, v, pdf, flag) = b.sample_f(wo, u);
            cx.evals(1);
            if pdf == 0. { continue; }
            let (w, v) = (a3(wi), asp(v));
            if !(pdf > 0. && pdf.is_finite()) || !((len(w) - 1.).abs() <= 1e-4) || v.iter().any(|x| !(*x >= 0. && x.is_finite())) {
                cx.fail(format!("{}, sample {:?}: direction {:?}, value {:?}, density {}", what(), u, w, v, pdf));
                return;
            }
            let (r, t) = (flag & REFLECTION != 0, flag & TRANSMISSION != 0);
            let kinds = [DIFFUSE, GLOSSY, SPECULAR].iter().filter(|x| flag & **x != 0).count();
            if r == t || kinds != 1 { cx.fail(format!("{}, sample {:?}: lobe kind {}", what(), u, flag)); return; }
            cx.nontrivials(1);
            if flag & SPECULAR != 0 { continue; }
            let (cg, cs) = (dot(w, f.gn), dot(w, f.sn));
            if cg.abs() < 1e-4 || cs.abs() < 1e-4 { continue; }
            let across = cg * dot(a3(wo), f.gn) < 0.;
            // a lobe of one kind does not carry light to the other side
            if across != t && v != [0.; 3] && ((t && !m.transmits()) || !matches!(m, Mat::Glass(..))) {
                cx.fail(format!("{}, sample {:?}: direction {:?} lies {} the surface but the lobe is of kind {}, value {:?}", what(), u, w, if across { "across" } else { "on this side of" }, flag, v));
                return;
            }
            let (e, p) = (asp(b.f(wo, wi)), b.pdf(wo, wi) as f64);
            for a in 0..3 { if !((v[a] - e[a]).abs() <= 3e-2 * v[a].max(e[a]) + 1e-6) {
                cx.fail(format!("{}, sample {:?}: value {:?} comes with direction {:?}, the pair has value {:?}", what(), u, v, w, e));
                return;
            } }
            if !((pdf as f64 - p).abs() <= 3e-2 * p.max(pdf as f64) + 1e-6) {
                cx.fail(format!("{}, sample {:?}: density {} comes with direction {:?}, the pair has density {}", what(), u, pdf, w, p));
                return;
            }
        }
        cx.sample(|| what());
    });
    // numbers at the ends of the unit interval
    let ends = [0f32, 1e-8, 0.25, 0.4999999, 0.5, 0.50000006, 0.75, 0.9999, 0.99999994];
    c.family("ends", "all materials in 4 frames, 7 angles from both sides, sample numbers at and next to the ends and the joints of the unit interval: finite, non-negative answers and unit directions, none lost where the surface scatters everywhere; non-trivial: samples", (more.len() * frames.len() * cosines2.len() * 2) as u64, |i, cx| {
        let mut d = Digits(i);
        let (m, f, cs, side) = (*d.of(&more), *d.of(&frames), *d.of(&cosines2), d.take(2));
        let wo = v3(f.world(polar(if side == 0 { cs } else { -cs }, 0.3)));
        let b = f.bsdf(&m);
        for x in ends { for y in ends {
            let u = Point2f::new(x, y);
            let what = || format!("{:?}, normals {:?} and {:?}, seen along {:?}, sample {:?}", m, f.gn, f.sn, wo, u);
            let (wi, v, pdf, _) = match mc::catch(|| b.sample_f(wo, u)) { Ok(x) => x, Err(e) => { cx.fail(format!("{}: {}", what(), e)); return; } };
            cx.evals(1);
            // away from the rim of the unit square, a matte surface sends light into every direction drawn
            let inner = [x, y].iter().all(|v| *v >= 0.25 && *v <= 0.75);
            if pdf == 0. && !(inner && m == Mat::Matte([0.5, 0.25, 1.])) { continue; }
            cx.nontrivials(1);
            if !(pdf > 0. && pdf.is_finite()) || !((len(a3(wi)) - 1.).abs() <= 1e-4) || asp(v).iter().any(|x| !(*x >= 0. && x.is_finite())) {
                cx.fail(format!("{}: direction {:?}, value {:?}, density {}", what(), wi, v, pdf));
                return;
            }
        } }
        cx.sample(|| format!("{:?}, normals {:?} and {:?}", m, f.gn, f.sn));
    });
    // surfaces that scatter nothing
    let none = [Mat::Glass(0., 0., 1.5, 0.2, 0.2), Mat::Glass(0., 0., 1.5, 0., 0.), Mat::Plastic(0., 0., 0.3), Mat::Plastic(0., 0., 0.), Mat::Matte([0.; 3]), Mat::Mirror([0.; 3]), Mat::Metal(0., [0.2, 0.92, 1.1], [3.9, 2.45, 2.14], 0.3, 0.3), Mat::Metal(0., [0.2, 0.92, 1.1], [3.9, 2.45, 2.14], 0., 0.)];
    c.family("black", "8 materials all of whose shares are zero, in 4 frames, 7 angles from both sides: no sample carries light, and the reported density, summed over a 60 x 60 lattice of directions, stays within one; non-trivial: directions", (none.len() * frames.len() * cosines2.len() * 2) as u64, |i, cx| {
        let mut d = Digits(i);
        let (m, f, cs, side) = (*d.of(&none), *d.of(&frames), *d.of(&cosines2), d.take(2));
        let wo = v3(f.world(polar(if side == 0 { cs } else { -cs }, 0.3)));
        let b = f.bsdf(&m);
        let what = || format!("{:?}, normals {:?} and {:?}, seen along {:?}", m, f.gn, f.sn, wo);
        let mut sum = 0.;
        for z in 0..60 { for p in 0..60 {
            let w = v3(f.world(polar(-1. + (z as f64 + 0.5) / 30., (p as f64 + 0.5) / 60. * TAU)));
            let (v, pdf) = (asp(b.f(wo, w)), b.pdf(wo, w) as f64);
            if v != [0.; 3] || !(pdf >= 0.) { cx.fail(format!("{}: value {:?} and density {} towards {:?}", what(), v, pdf, w)); return; }
            sum += pdf * 2. * TAU / 3600.;
            let u = Point2f::new((z as f32 + 0.5) / 60., (p as f32 + 0.5) / 60.);
            let (wi, v, pdf, _) = b.sample_f(wo, u);
            if pdf != 0. && asp(v) != [0.; 3] { cx.fail(format!("{}: sample {:?} has value {:?} and density {} towards {:?}", what(), u, v, pdf, wi)); return; }
        } }
        cx.evals(3600);
        cx.nontrivials(3600);
        if !(sum <= 1.05) { cx.fail(format!("{}: the density integrates to {}", what(), sum)); }
    });
    c.finish();
}
