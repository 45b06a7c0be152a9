//! C21: specular surfaces obey the laws of reflection and refraction.
use checks::scatter::*;
use checks::*;
use mc::num::*;
use mc::{Check, Cx, Digits, Level};
use pt::reflection::{REFLECTION, SPECULAR, TRANSMISSION};
use pt::vector::Point2f;

/// What the lobes of a material do with light seen along `wo`, as the renderer uses them:
/// per kind (reflected, transmitted) the direction and share.
fn shares(m: &Mat, f: &Frame, wo: V, cx: &mut Cx) -> Result<[Option<(V, [f64; 3])>; 2], String> {
    let b = f.bsdf(m);
    let mut out: [Option<(V, [f64; 3])>; 2] = [None, None];
    let n = 8;
    for k in 0..n {
        let u = Point2f::new((k as f32 + 0.25) / n as f32, 0.37);
        let (wi, v, pdf, flag) = b.sample_f(v3(wo), u);
        cx.evals(1);
        let v = asp(v);
        if pdf == 0. { continue; }
        if !(pdf > 0. && pdf <= 1.) { return Err(format!("density {}", pdf)); }
        if flag & SPECULAR == 0 {
            continue; // the diffuse part of a plastic
        }
        let kind = if flag & REFLECTION != 0 && flag & TRANSMISSION == 0 { 0 } else if flag & TRANSMISSION != 0 && flag & REFLECTION == 0 { 1 } else { return Err(format!("lobe kind {}", flag)) };
        let wi = a3(wi);
        let c = dot(wi, f.sn).abs();
        let share = v.map(|x| x * c / pdf as f64 / n as f64);
        match &mut out[kind] {
            Some((w, s)) => {
                if !close(*w, wi, 1e-6) { return Err(format!("two directions {:?} and {:?}", w, wi)); }
                for a in 0..3 { s[a] += share[a]; }
            }
            x => *x = Some((wi, share)),
        }
        // a specular lobe is never met by chance
        if b.pdf(v3(wo), v3(wi)) != 0. && !matches!(m, Mat::Plastic(..)) { return Err("the specular lobe has a density".into()); }
        if !matches!(m, Mat::Plastic(..)) && asp(b.f(v3(wo), v3(wi))) != [0.; 3] { return Err("the specular lobe has a value".into()); }
    }
    Ok(out)
}

fn main() {
    let mut c = Check::new("C21", Level::Exploration);
    let frames = [Frame::plain(), Frame::new([0.3, -0.5, 0.8], 0., 0.7), Frame::new([-1., 0.2, 0.1], 0., 2.), Frame::new([0., 0.1, -1.], 0., -1.)];
    let etas = [1.5f32, 1.33, 2.4, 1., 0.7, 1.0003];
    let mut mats = vec![Mat::Mirror([1., 1., 1.]), Mat::Mirror([0.25, 0.5, 0.75]), Mat::Mirror([0., 0., 1.]),
        Mat::Metal(1., [0.2, 0.92, 1.1], [3.9, 2.45, 2.14], 0., 0.), Mat::Metal(0.5, [1.5, 1., 4.], [0., 0.01, 3.], 0., 0.), Mat::Metal(1., [0.05, 2.5, 1.], [1., 0.5, 7.], 0., 0.),
        Mat::Plastic(0., 1., 0.), Mat::Plastic(0.5, 0.5, 0.), Mat::Plastic(0.25, 0.125, 0.)];
    for e in etas { for (r, t) in [(1., 1.), (1., 0.), (0., 1.), (0.25, 0.75)] { mats.push(Mat::Glass(r, t, e, 0., 0.)); } }
    let nc = c.pick(200usize, 2000);
    let nphi = c.pick(24usize, 48);
    let graze = [3e-2, 1e-2, 3e-3, 1e-3, 7e-4, 5e-4, 1e-4, 1e-5, 1e-6];
    let nc = nc + graze.len();
    c.family("smooth", "mirror, smooth glass of 6 indices (also below and at 1) with 4 combinations of reflectance and transmittance, smooth metals of 9 indices, smooth plastic; every angle of a lattice and 9 next to grazing (cosine down to 1e-6) from both sides in 4 frames: directions and shares against the laws in double precision; non-trivial: lobes", (mats.len() * frames.len() * 2 * nc) as u64, |i, cx| {
        let mut d = Digits(i);
        let (m, f, side, k) = (*d.of(&mats), *d.of(&frames), d.take(2), d.take(nc));
        // from grazing to head on, both included
        let cs = if k == nc - 1 { 1. } else if k < graze.len() { graze[k] } else { ((k - graze.len()) as f64 + 0.5) / (nc - graze.len()) as f64 } * if side == 0 { 1. } else { -1. };
        for j in 0..nphi {
            let wo = a3(v3(f.world(polar(cs, j as f64 / nphi as f64 * std::f64::consts::TAU + 0.01))));
            let lo = f.local(wo);
            let what = || format!("{:?}, normal {:?}, seen along {:?} (cosine {})", m, f.sn, wo, lo[2]);
            let s = match shares(&m, &f, wo, cx) { Ok(s) => s, Err(e) => { cx.fail(format!("{}: {}", what(), e)); return; } };
            // reflected
            let mirror = sub(mul(f.sn, 2. * dot(wo, f.sn)), wo);
            let cosi = lo[2];
            let (kr, kt, eta) = match m { Mat::Glass(r, t, e, ..) => (r as f64, t as f64, e as f64), _ => (1., 0., 1.) };
            // expected shares
            let want_r: Option<[f64; 3]> = match m {
                Mat::Mirror(k) => Some(k.map(|x| x as f64)),
                Mat::Glass(..) => if kr > 0. { Some([kr * fresnel(cosi, eta); 3]) } else { Some([0.; 3]) },
                Mat::Metal(r, e, k, ..) => Some([0, 1, 2].map(|a| r as f64 * fresnel_metal(cosi, e[a] as f64, k[a] as f64))),
                Mat::Plastic(..) => None,
                _ => unreachable!(),
            };
            // how sharply the share depends on the rounding of the cosine, near the critical angle
            let sin2t = if cosi > 0. { (1. - cosi * cosi) / (eta * eta) } else { (1. - cosi * cosi) * eta * eta };
            let ct = (1. - sin2t).abs().max(1e-12).sqrt();
            let tol = 1e-4 + 2e-6 / ct + 6e-7 / cosi.abs() / (cosi.abs() + ct) + 1e-6 / cosi.abs();
            // without the rounding of a turned frame the shares next to grazing are known better
            let tol = if f.sn == [0., 0., 1.] { 1e-5 + 2e-6 / ct + 4e-7 / (ct * ct) } else { tol };
            // the transmitted share may be computed from the other side, where it is next to the critical angle
            let ttol = tol + 5e-7 * (1. + eta.max(1. / eta).powi(2)) / cosi.abs() / ct.min(1.);
            let dtol = 2e-6 + 2e-6 * eta.max(1. / eta) / (1. - sin2t).abs().max(1e-12).sqrt();
            if let Some((w, _)) = s[0] {
                cx.nontrivials(1);
                if !close(w, mirror, 2e-6) { cx.fail(format!("{}: reflects into {:?}, the mirror direction is {:?}", what(), w, mirror)); return; }
            }
            let got_r = s[0].map_or([0.; 3], |x| x.1);
            match want_r {
                Some(w) => if (0..3).any(|a| !((got_r[a] - w[a]).abs() <= tol)) { cx.fail(format!("{}: reflects the share {:?}, expected {:?}", what(), got_r, w)); return; },
                None => { let ks = match m { Mat::Plastic(_, s, _) => s as f64, _ => 1. }; if got_r.iter().any(|x| !(*x >= 0. && *x <= ks + tol)) { cx.fail(format!("{}: reflects the share {:?}", what(), got_r)); return; } }
            }
            // transmitted
            let crit = (sin2t - 1.).abs() < 1e-6;
            match s[1] {
                Some((w, sh)) => {
                    cx.nontrivials(1);
                    if kt == 0. { cx.fail(format!("{}: transmits", what())); return; }
                    if sin2t >= 1. && !crit { cx.fail(format!("{}: transmits into {:?} beyond the critical angle", what(), w)); return; }
                    // Snell: the tangential part scales with the ratio of indices
                    let g = if cosi > 0. { 1. / eta } else { eta };
                    let t = mul(sub(mul(f.sn, lo[2]), wo), g);
                    let snell = sub(t, mul(f.sn, lo[2].signum() * (1. - sin2t).max(0.).sqrt()));
                    if !crit && !close(w, snell, dtol) { cx.fail(format!("{}: transmits into {:?}, the law of refraction gives {:?}", what(), w, snell)); return; }
                    let scale = g * g;
                    let want = kt * (1. - fresnel(cosi, eta)) * scale;
                    if !crit && sh.iter().any(|x| !((x - want).abs() <= ttol * scale.max(1.))) { cx.fail(format!("{}: transmits {:?}, expected {} ({} of the light, scaled by the squared ratio of indices {})", what(), sh, want, want / scale, scale)); return; }
                    if kr == 1. && kt == 1. && !crit && (got_r[0] + sh[0] / scale - 1.).abs() > ttol { cx.fail(format!("{}: reflected and transmitted shares {} and {} do not add up to one", what(), got_r[0], sh[0] / scale)); return; }
                }
                None => if kt > 0. && sin2t < 1. && !crit {
                    // nothing transmitted: allowed only if there is next to nothing
                    if kt * (1. - fresnel(cosi, eta)) > 1e-3 { cx.fail(format!("{}: transmits nothing, expected {}", what(), kt * (1. - fresnel(cosi, eta)))); return; }
                },
            }
        }
        cx.sample(|| format!("{:?}, normal {:?}, cosine {}", m, f.sn, cs));
    });
    // a nearly smooth surface does nearly the same
    let n = c.pick(192usize, 640);
    let angles = [0.05, 0.2, 0.35, 0.5, 0.6, 0.68, 0.72, 0.8, 0.9, 0.99];
    let mut rough = vec![];
    for (r, t) in [(1., 1.), (1., 0.), (0., 1.)] { for e in [1.5f32, 1.33, 0.7, 1.] { for (u, v) in [(0.02, 0.02), (0.03, 0.015)] { rough.push(Mat::Glass(r, t, e, u, v)); } } }
    for (u, v) in [(0.02, 0.02), (0.03, 0.015)] { rough.push(Mat::Metal(1., [0.2, 0.92, 1.1], [3.9, 2.45, 2.14], u, v)); rough.push(Mat::Metal(1., [1.5, 1.2, 4.], [0.1, 0.01, 3.], u, v)); }
    c.family("nearly smooth", "rough glass and metal of roughness 0.015 to 0.03, 10 angles from both sides in 4 frames: the reflected and transmitted shares averaged over the complete n x n lattice of samples (n = 192, thorough 640) against the smooth ones; non-trivial: lobes", (rough.len() * angles.len() * 2 * frames.len()) as u64, |i, cx| {
        let mut d = Digits(i);
        let (m, cs, side, f) = (*d.of(&rough), *d.of(&angles), d.take(2), *d.of(&frames));
        let cosi = if side == 0 { cs } else { -cs };
        let wo = f.world(polar(cosi, 0.9));
        let b = f.bsdf(&m);
        let mut sum = [[0f64; 3]; 2];
        for k in 0..n * n {
            let u = Point2f::new(((k % n) as f32 + 0.5) / n as f32, ((k / n) as f32 + 0.5) / n as f32);
            let (wi, v, pdf, _) = b.sample_f(v3(wo), u);
            if pdf == 0. { continue; }
            let (w, v) = (a3(wi), asp(v));
            let kind = (dot(w, f.gn) * dot(wo, f.gn) < 0.) as usize;
            for a in 0..3 { sum[kind][a] += v[a] * dot(w, f.sn).abs() / pdf as f64 / (n * n) as f64; }
        }
        cx.evals((n * n) as u64);
        cx.nontrivials(1);
        // the smooth share varies over the lobe: take its range
        let spread = 0.06 / cs;
        let range = |g: &dyn Fn(f64) -> f64| { let v: Vec<f64> = (-20..=20).map(|k| { let c = (cs + k as f64 / 20. * spread).max(0.005).min(1.); g(if side == 0 { c } else { -c }) }).collect(); (v.iter().cloned().fold(9., f64::min), v.iter().cloned().fold(0., f64::max)) };
        let what = || format!("{:?}, normal {:?}, cosine {}", m, f.sn, cosi);
        for a in 0..3 {
            let (lo, hi, tlo, thi, scale) = match m {
                Mat::Glass(r, t, e, ..) => {
                    let (x, y) = range(&|c| fresnel(c, e as f64));
                    let g = if cosi > 0. { 1. / e as f64 } else { e as f64 };
                    (r as f64 * x, r as f64 * y, t as f64 * (1. - y), t as f64 * (1. - x), g * g)
                }
                Mat::Metal(_, e, k, ..) => { let (x, y) = range(&|c| fresnel_metal(c, e[a] as f64, k[a] as f64)); (x, y, 0., 0., 1.) }
                _ => unreachable!(),
            };
            // shadowing takes a little away at grazing angles
            let loss = 0.02 + if cs < 0.3 { 0.1 } else { 0. };
            let (r, t) = (sum[0][a], sum[1][a] / scale);
            if !(r >= lo * (1. - loss) - 0.01 && r <= hi + 0.02) { cx.fail(format!("{}: reflects the share {}, a smooth surface {}..{}", what(), r, lo, hi)); return; }
            if !(t >= tlo * (1. - loss) - 0.02 - loss * 0.5 && t <= thi + 0.02) { cx.fail(format!("{}: transmits the share {}, a smooth surface {}..{}", what(), t, tlo, thi)); return; }
        }
        cx.sample(|| format!("{}: reflected {:?}, transmitted {:?}", what(), sum[0], sum[1]));
    });
    c.finish();
}
