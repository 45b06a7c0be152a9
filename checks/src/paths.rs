//! The mean radiance along a ray over a complete grid of sampler answers.
use crate::*;
use pt::film::Film;
use pt::integrator::Integrator;

/// Renders `ray` into side x side pixels.  Every pixel takes all samples of the
/// grid with `strata[c]` strata for the c-th number drawn after the camera's
/// (one stratum for later ones); the pixels' points lie at different places
/// inside the strata (a lattice).  Returns the mean over the pixels and the largest pixel.
pub fn mean<C: Container + 'static>(scene: Scene<C>, ray: &Ray, strata: &[u32], side: usize) -> Result<([f64; 3], [f64; 3]), String> {
    shared(scene, ray, &(0..strata.len()).collect::<Vec<_>>(), strata, side)
}

/// The same where the c-th number drawn takes digit `digit[c]` of the grid.
pub fn shared<C: Container + 'static>(scene: Scene<C>, ray: &Ray, digit: &[usize], strata: &[u32], side: usize) -> Result<([f64; 3], [f64; 3]), String> {
    let n = (side * side) as u32;
    let spp: u32 = strata.iter().product();
    let digit = digit.to_vec();
    let st: Vec<(u32, u32)> = strata.iter().scan(1, |k, s| { let p = *k; *k *= *s; Some((p, *s)) }).collect();
    let gen: Vec<u32> = { let mut v = vec![1u32]; for _ in 0..400 { let l = *v.last().unwrap(); v.push(l * 5 % n.max(2)); } v };
    let s = FnSampler::new(spp, move |p, k, call| {
        if call < 2 { return 0.5; }
        let c = call as usize - 2;
        let j = p.y as u32 * side as u32 + p.x as u32;
        let o = ((j * gen[c % gen.len()] + c as u32 / 7 * 3) % n) as f32 + 0.5;
        let (g, d) = match digit.get(c) { Some(i) => (st[*i].1, k / st[*i].0 % st[*i].1), None => (1, 0) };
        ((d as f32 + o / n as f32) / g as f32).min(0.99999994)
    });
    let film = Film::new(Point2u::new(side as u32, side as u32), box_filter(0.5));
    let img = image_of(move || Integrator::new(scene, s, FixedCamera(ray.clone()), film).render(1))?;
    if img.w != side || img.h != side { return Err(format!("image of {} x {}", img.w, img.h)); }
    let (mut m, mut hi) = ([0f64; 3], [0f64; 3]);
    for p in &img.px { for a in 0..3 {
        let v = linear(p[a] as f64);
        m[a] += v / n as f64;
        hi[a] = hi[a].max(v);
    } }
    Ok((m, hi))
}

/// What the numbers of a path are for, one letter per bounce element, found by
/// watching what the code asks for along a ray that keeps being reflected in a
/// scene with lights: `L` light choice, `A`, `B` light point and scattering
/// direction, `N` next direction, `R` a termination decision.  The two numbers of a
/// point are two letters.
pub fn layout<C: Container + 'static>(scene: Scene<C>, ray: &Ray) -> Vec<char> {
    let kinds = Arc::new(Mutex::new(vec![]));
    // small numbers survive a termination decision
    let mut s = FnSampler::new(1, |_, _, call| if call < 2 { 0.5 } else { 0.01 });
    s.kinds = Some(kinds.clone());
    let film = Film::new(Point2u::new(1, 1), box_filter(0.5));
    let ray = ray.clone();
    let _ = image_of(move || Integrator::new(scene, s, FixedCamera(ray), film).render(1));
    let k = kinds.lock().unwrap().clone();
    let mut out = vec![];
    let mut i = 1;
    while i < k.len() {
        if k[i] == 1 && k[i..].starts_with(&[1, 2, 2, 2]) { out.extend("LAABBNN".chars()); i += 4; }
        else if k[i] == 1 { out.push('R'); i += 1; }
        else { out.extend("NN".chars()); i += 1; }
    }
    out
}
