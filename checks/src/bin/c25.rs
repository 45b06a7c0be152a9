//! C25: camera rays pass through their raster position.
use std::sync::Arc;

use checks::*;
use mc::num::*;
use mc::{Check, Digits, Level};
use pt::bbox::{BBox2f, BBox3f};
use pt::camera::{Camera, CameraSample, PerspectiveCamera};
use pt::film::Film;
use pt::integrator::Integrator;
use pt::interaction::Interaction;
use pt::material::Material;
use pt::ray::Ray;
use pt::scene::Builder;
use pt::shape::Shape;
use pt::spectrum::Spectrum;
use pt::transform::Transform;
use pt::vector::*;

/// A camera placement: the transform and, by its own f64 model, where the
/// camera is and what its axes are in the world.
#[derive(Clone)]
struct Place {
    name: String,
    t: Transform,
    o: V,
    axes: [V; 3],
}

fn look(p: V, l: V, up: V) -> Place {
    let l = l.map(|x| x as f32 as f64);
    let d = norm(sub(l, p));
    let x = norm(cross(norm(up), d));
    let y = cross(d, x);
    Place { name: format!("look_at({:?}, {:?}, {:?})", p, l, up), t: Transform::look_at(p3(p), p3(l), v3(up)), o: p, axes: [x, y, d] }
}
fn moved(pl: &Place, by: V) -> Place {
    Place { name: format!("translate({:?}) * {}", by, pl.name), t: Transform::translate(by[0] as f32, by[1] as f32, by[2] as f32) * pl.t, o: add(pl.o, by), axes: pl.axes }
}
fn scaled(pl: &Place, s: V) -> Place {
    let f = |v: V| [v[0] * s[0], v[1] * s[1], v[2] * s[2]];
    Place { name: format!("scale({:?}) * {}", s, pl.name), t: Transform::scale(s[0] as f32, s[1] as f32, s[2] as f32) * pl.t, o: f(pl.o), axes: pl.axes.map(f) }
}
fn turned(pl: &Place, deg: f32) -> Place {
    // about the world's z axis, a quarter turn at a time (exact in the model)
    let (s, c) = [(0., 1.), (1., 0.), (0., -1.), (-1., 0.)][(deg / 90.) as usize];
    let f = |v: V| [c * v[0] - s * v[1], s * v[0] + c * v[1], v[2]];
    Place { name: format!("rotate_z({}) * {}", deg, pl.name), t: Transform::rotate_z(deg) * pl.t, o: f(pl.o), axes: pl.axes.map(f) }
}

struct Config {
    fov: f32,
    near: f32,
    far: f32,
    win: [f32; 4],
    res: [u32; 2],
}

fn camera(pl: &Place, c: &Config) -> PerspectiveCamera {
    PerspectiveCamera::new(
        pl.t,
        Transform::perspective(c.fov, c.near, c.far),
        BBox2f::new(Point2f::new(c.win[0], c.win[1]), Point2f::new(c.win[2], c.win[3])),
        Point2u::new(c.res[0], c.res[1]),
    )
}

/// The direction in the world of a raster position.
fn direction(pl: &Place, c: &Config, p: [f64; 2]) -> V {
    let k = ((c.fov as f64).to_radians() / 2.).tan();
    let w = c.win.map(|x| x as f64);
    let x = w[0] + p[0] / c.res[0] as f64 * (w[2] - w[0]);
    let y = w[3] - p[1] / c.res[1] as f64 * (w[3] - w[1]);
    norm(add(add(mul(pl.axes[0], x * k), mul(pl.axes[1], y * k)), pl.axes[2]))
}

/// Everything around the camera: a shape every ray hits, which emits by direction.
struct Dome(Arc<dyn Fn(&Ray) -> [f64; 2] + Send + Sync>);
impl Shape for Dome {
    fn bbox(&self) -> BBox3f { BBox3f::new(Point3f::new(-1e6, -1e6, -1e6), Point3f::new(1e6, 1e6, 1e6)) }
    fn area(&self) -> f32 { 1e12 }
    fn intersect_p(&self, _: &Ray) -> bool { true }
    fn intersect(&self, ray: &Ray) -> Option<(Interaction, f32)> {
        let d = ray.direction;
        let p = (self.0)(ray);
        Some((Interaction { p: ray.position(1.), uv: Point2f::new(p[0] as f32, p[1] as f32), n: Normal3f::from(-d), sn: Normal3f::from(-d), dpdu: Vector3f::new(1., 0., 0.), dpdv: Vector3f::new(0., 1., 0.), wo: -d, ..Default::default() }, 1.))
    }
    fn material(&self) -> Arc<dyn Material> { Arc::new(NoMaterial) }
    fn sample(&self, _: Point2f) -> Interaction { Default::default() }
    fn l(&self, i: &Interaction, _: Vector3f) -> Spectrum { Spectrum::new(i.uv.x, i.uv.y, 0.25) }
}

fn main() {
    let mut c = Check::new("C25", Level::Exploration);
    c.assume("the camera's axes are those of the look-at transform as its unit test has them (left-handed: across is up x direction)");

    let mut places: Vec<Place> = Vec::new();
    let pos = [[0., 0., 0.], [-10., -30., 10.], [1., 1., 0.], [0.25, -0.5, 200.]];
    let dirs = [[1., 0., 0.], [0., 1., 0.], [0., 0., -1.], [10., 30., -10.], [-1., 2., 3.], [0.5, -0.01, 0.02], [-20000., 3000., 5000.], [0.001, 0.0005, -0.002]];
    let ups = [[0., 0., 1.], [0., 2., 0.], [1., 1., -3.], [0.0001, 0.001, 0.0005], [0., -500., 20000.]];
    for p in pos { for d in dirs { for u in ups {
        if len(cross(norm(d), norm(u))) > 0.05 { places.push(look(p, add(p, d), u)); }
    } } }
    let some: Vec<Place> = places.iter().step_by(c.pick(4, 1)).cloned().collect();
    for p in &some {
        places.push(moved(p, [3., -0.5, 7.]));
        places.push(turned(p, 90.));
        places.push(turned(&moved(p, [0., 2., -1.]), 180.));
        places.push(scaled(p, [-1., 1., 1.]));
        places.push(scaled(p, [2.5, 2.5, 2.5]));
        places.push(scaled(p, [1., 0.5, 3.]));
    }
    places.push(Place { name: "identity".into(), t: Transform::translate(0., 0., 0.), o: [0.; 3], axes: [[1., 0., 0.], [0., 1., 0.], [0., 0., 1.]] });
    let fovs: &[f32] = &[1., 10., 30., 45., 60., 90., 120., 150., 175.];
    let nears: &[(f32, f32)] = &[(0.01, 1000.), (1., 5.), (0.001, 10.), (5., 5000.)];
    let wins: &[[f32; 4]] = &[[-1., -1., 1., 1.], [-1.25, -1., 1.25, 1.], [-0.5, -2., 3., 0.25], [0.5, 0.25, 0.75, 2.], [-3., 1., -2., 1.5]];
    let ress: &[[u32; 2]] = &[[1, 1], [5, 3], [3, 5], [1600, 1280], [1, 4096], [8192, 7], [40000, 3], [2, 70000]];
    let thorough = c.thorough();
    let total = (places.len() * fovs.len() * nears.len() * wins.len() * ress.len()) as u64;
    c.family("primary rays", "every placement (look-at over positions, directions and ups, also moved, turned, mirrored and scaled) x field of view x near and far plane x screen window (symmetric, wide, shifted) x resolution, at a lattice of raster positions: the corners, the centre, positions inside pixels and just outside the film; non-trivial: the window is not centred or the film is not square", total, |i, cx| {
        let mut d = Digits(i);
        let pl = d.of(&places);
        let (near, far) = { let n = d.take(nears.len()); nears[n] };
        let cfg = Config { fov: *d.of(fovs), near, far, win: *d.of(wins), res: *d.of(ress) };
        if cfg.win[0] != -cfg.win[2] || cfg.res[0] != cfg.res[1] { cx.nontrivial(); }
        let cam = camera(pl, &cfg);
        let (w, h) = (cfg.res[0] as f64, cfg.res[1] as f64);
        let fine = if thorough { 24 } else { 0 };
        let lattice = move |n: f64, v: &[f64]| -> Vec<f64> { v.iter().copied().chain((0..fine).map(|k| n * (k as f64 + 0.37) / fine as f64)).collect() };
        let xs = lattice(w, &[0., w, 0.5 * w, 0.5, w - 0.25, (w * 0.3).floor() + 0.125, -0.5, w + 1.5]);
        let ys = lattice(h, &[0., h, 0.5 * h, 0.5, h - 0.25, (h * 0.7).floor() + 0.375, -1.5, h + 0.5]);
        let size = 1. + len(pl.o);
        let tol = 4e-6 * ((cfg.fov as f64).to_radians() / 2.).tan().max(1.);
        for &x in &xs { for &y in &ys {
            let p = [x as f32 as f64, y as f32 as f64];
            let r = cam.generate_ray(&CameraSample { p_film: Point2f::new(p[0] as f32, p[1] as f32) });
            cx.evals(1);
            let (o, g) = (ap(r.origin), a3(r.direction));
            let want = direction(pl, &cfg, p);
            let what = || format!("{}, field of view {}, planes {} and {}, window {:?}, film {:?}, raster position {:?}", pl.name, cfg.fov, near, far, cfg.win, cfg.res, p);
            if !cx.check(close(o, pl.o, 1e-6 * size), || format!("{}: the ray starts at {:?} instead of {:?}", what(), o, pl.o)) { return; }
            if !cx.check((len(g) - 1.).abs() < 2e-6, || format!("{}: the direction {:?} has length {}", what(), g, len(g))) { return; }
            if !cx.check(close(g, want, tol), || format!("{}: the direction is {:?} instead of {:?}", what(), g, want)) { return; }
            if !cx.check(r.t_max == f32::INFINITY, || format!("{}: the ray ends at {}", what(), r.t_max)) { return; }
            cx.sample(|| format!("{} -> {:?}", what(), g));
        } }
    });

    let some: Vec<Place> = places.iter().step_by(c.pick(7, 1)).cloned().collect();
    let ress: &[[u32; 2]] = &[[1, 1], [5, 3], [3, 7], [17, 18], [33, 2]];
    let total = (some.len() * ress.len() * wins.len()) as u64;
    c.family("pixels of the image", "every placement x window x film size, rendered through the integrator with a surrounding that emits, in each direction, a colour naming the raster position the direction belongs to: every pixel of the written image has to show its own name; non-trivial: more than one pixel", total, |i, cx| {
        let mut d = Digits(i);
        let pl = d.of(&some).clone();
        let cfg = Config { fov: 50., near: 0.01, far: 1000., win: *d.of(wins), res: *d.of(ress) };
        let (w, h) = (cfg.res[0], cfg.res[1]);
        if w * h > 1 { cx.nontrivial(); }
        // the inverse of the pinhole
        let (axes, win) = (pl.axes, cfg.win.map(|x| x as f64));
        let k = (cfg.fov as f64).to_radians() / 2.;
        let k = k.tan();
        let emit = move |r: &Ray| -> [f64; 2] {
            let v = a3(r.direction);
            // solve v = a x + b y + c z by Cramer's rule
            let det = dot(axes[0], cross(axes[1], axes[2]));
            let a = dot(v, cross(axes[1], axes[2])) / det;
            let b = dot(axes[0], cross(v, axes[2])) / det;
            let c = dot(axes[0], cross(axes[1], v)) / det;
            let (x, y) = (a / c / k, b / c / k);
            [(x - win[0]) / (win[2] - win[0]), (win[3] - y) / (win[3] - win[1])]
        };
        let cam = camera(&pl, &cfg);
        let img = image_of(move || {
            let mut b = Builder::new();
            b.add_shape(Dome(Arc::new(emit)));
            let s = FnSampler::new(1, |_, _, _| 0.5);
            let film = Film::new(Point2u::new(w, h), box_filter(0.5));
            Integrator::new(brute_scene(b), s, cam, film).render(2);
        });
        let img = match img { Ok(i) => i, Err(e) => { cx.fail(format!("{}: {}", pl.name, e)); return; } };
        if !cx.check(img.w == w as usize && img.h == h as usize, || format!("image of {} x {} instead of {} x {}", img.w, img.h, w, h)) { return; }
        for y in 0..h { for x in 0..w {
            let want = [(x as f64 + 0.5) / w as f64, (y as f64 + 0.5) / h as f64, 0.25];
            let px = img.at(x as usize, y as usize);
            cx.evals(1);
            if !cx.check((0..3).all(|a| channel_ok(px[a], want[a] - 1e-4, want[a] + 1e-4)), || format!("{}, window {:?}, film {} x {}: pixel ({}, {}) shows {:?} instead of {:?}", pl.name, cfg.win, w, h, x, y, px, want.map(|v| srgb255(v).round()))) { return; }
        } }
        cx.sample(|| format!("{}, window {:?}, film {} x {}", pl.name, cfg.win, w, h));
    });
    c.finish()
}
