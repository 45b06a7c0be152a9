//! What several checks share: stand-in environments for renders, an image
//! parser, materials and scenes.
use std::collections::BTreeMap;
use std::sync::{Arc, Mutex};

use mc::{single, World};
use pt::bbox::BBox3f;
use pt::camera::{Camera, CameraSample};
use pt::container::Container;
use pt::filter::Filter;
use pt::interaction::Interaction;
use pt::material::Material;
use pt::ray::Ray;
use pt::reflection::BSDF;
use pt::sampler::Sampler;
use pt::scene::{Builder, Scene};
use pt::shape::Shape;
use pt::spectrum::Spectrum;
use pt::vector::*;

pub mod paths;
pub mod scatter;

/// A plain PPM file: header, then one line of three numbers per pixel.
pub struct Ppm {
    pub w: usize,
    pub h: usize,
    pub px: Vec<[u32; 3]>,
}

impl Ppm {
    pub fn at(&self, x: usize, y: usize) -> [u32; 3] { self.px[y * self.w + x] }
}

pub fn parse_ppm(data: &[u8]) -> Result<Ppm, String> {
    let text = std::str::from_utf8(data).map_err(|_| "not text".to_string())?;
    if !text.ends_with('\n') {
        return Err(format!("does not end with a line end ({} bytes)", data.len()));
    }
    let mut lines = text[..text.len() - 1].split('\n');
    let mut head = Vec::new();
    while head.len() < 4 {
        match lines.next() {
            Some(l) => head.extend(l.split_ascii_whitespace()),
            None => return Err("header ends early".into()),
        }
    }
    if head.len() != 4 || head[0] != "P3" || head[3] != "255" {
        return Err(format!("header is {:?}", head));
    }
    let w: usize = head[1].parse().map_err(|_| "width".to_string())?;
    let h: usize = head[2].parse().map_err(|_| "height".to_string())?;
    let mut px = Vec::with_capacity(w * h);
    for l in lines {
        let mut it = l.split_ascii_whitespace();
        let mut p = [0u32; 3];
        for c in p.iter_mut() {
            let t = it.next().ok_or_else(|| format!("line {:?} of pixel {}", l, px.len()))?;
            if !t.bytes().all(|b| b.is_ascii_digit()) {
                return Err(format!("line {:?} of pixel {}", l, px.len()));
            }
            *c = t.parse().map_err(|_| format!("line {:?}", l))?;
            if *c > 255 {
                return Err(format!("value {} of pixel {}", c, px.len()));
            }
        }
        if it.next().is_some() {
            return Err(format!("line {:?} of pixel {}", l, px.len()));
        }
        px.push(p);
    }
    if px.len() != w * h {
        return Err(format!("{} pixel lines for {} x {}", px.len(), w, h));
    }
    Ok(Ppm { w, h, px })
}

/// The sRGB encoding on the 0..=255 scale, not rounded.
pub fn srgb255(v: f64) -> f64 {
    let v = v.max(0.).min(1.);
    255. * if v <= 0.0031308 { 12.92 * v } else { 1.055 * v.powf(1. / 2.4) - 0.055 }
}

/// The linear value of a channel value.
pub fn linear(c: f64) -> f64 {
    let e = c / 255.;
    if e <= 12.92 * 0.0031308 { e / 12.92 } else { ((e + 0.055) / 1.055).powf(2.4) }
}

/// Is `got` the rounded encoding of a linear value within [lo, hi]?
pub fn channel_ok(got: u32, lo: f64, hi: f64) -> bool {
    let (a, b) = (srgb255(lo) - 0.502, srgb255(hi) + 0.502);
    (got as f64) >= a && (got as f64) <= b
}

/// A filter given by a function.
#[derive(Clone, Copy)]
pub struct FnFilter {
    pub radius: f32,
    pub f: fn(f32, f32) -> f32,
}
impl Filter for FnFilter {
    fn radius(&self) -> f32 { self.radius }
    fn evaluate(&self, p: Point2f) -> f32 { (self.f)(p.x, p.y) }
}
pub fn box_filter(radius: f32) -> FnFilter { FnFilter { radius, f: |_, _| 1. } }

/// A camera whose ray carries the raster position: origin (x, y, 0), direction +z.
#[derive(Clone)]
pub struct RasterCamera;
impl Camera for RasterCamera {
    fn generate_ray(&self, s: &CameraSample) -> Ray {
        Ray { origin: Point3f::new(s.p_film.x, s.p_film.y, 0.), direction: Vector3f::new(0., 0., 1.), t_max: f32::INFINITY }
    }
}

/// A camera that always returns the same ray.
#[derive(Clone)]
pub struct FixedCamera(pub Ray);
impl Camera for FixedCamera {
    fn generate_ray(&self, _: &CameraSample) -> Ray { self.0.clone() }
}

pub struct NoMaterial;
impl Material for NoMaterial {
    fn compute_scattering(&self, i: &Interaction) -> BSDF { BSDF::new(i) }
}

/// Radiance as a function of the raster position, for use with RasterCamera:
/// a shape filling the plane z = 1 that emits, and a container holding it.
pub type Emit = Arc<dyn Fn(Point2f) -> Spectrum + Send + Sync>;
pub struct Wall(pub Emit);
impl Shape for Wall {
    fn bbox(&self) -> BBox3f { BBox3f::new(Point3f::new(-1e6, -1e6, 1.), Point3f::new(1e6, 1e6, 1.)) }
    fn area(&self) -> f32 { 4e12 }
    fn intersect_p(&self, ray: &Ray) -> bool { self.intersect(ray).is_some() }
    fn intersect(&self, ray: &Ray) -> Option<(Interaction, f32)> {
        let t = (1. - ray.origin.z) / ray.direction.z;
        if !(t > 0. && t < ray.t_max) {
            return None;
        }
        Some((Interaction {
            p: ray.position(t),
            uv: Point2f::new(ray.origin.x, ray.origin.y),
            n: Normal3f::new(0., 0., -1.),
            sn: Normal3f::new(0., 0., -1.),
            dpdu: Vector3f::new(1., 0., 0.),
            dpdv: Vector3f::new(0., 1., 0.),
            wo: -ray.direction,
            ..Default::default()
        }, t))
    }
    fn material(&self) -> Arc<dyn Material> { Arc::new(NoMaterial) }
    fn sample(&self, _: Point2f) -> Interaction { Default::default() }
    fn l(&self, i: &Interaction, _: Vector3f) -> Spectrum { (self.0)(i.uv) }
}

/// The answer of testing every shape individually.
pub struct Brute(pub Box<[Arc<dyn Shape>]>);
impl Container for Brute {
    fn bbox(&self) -> BBox3f {
        self.0.iter().map(|s| s.bbox()).reduce(|a, b| a.union(&b)).unwrap_or(BBox3f::new(Point3f::default(), Point3f::default()))
    }
    fn intersect_p(&self, ray: &Ray) -> bool { self.0.iter().any(|s| s.intersect_p(ray)) }
    fn intersect(&self, ray: &Ray) -> Option<Interaction> {
        let mut ray = ray.clone();
        let mut best = None;
        for s in self.0.iter() {
            if let Some((mut i, t)) = s.intersect(&ray) {
                ray.t_max = t;
                i.shape = Some(s.clone());
                best = Some(i);
            }
        }
        best
    }
}

pub fn brute_scene(b: Builder) -> Scene<Brute> { b.construct(Brute) }

pub fn wall_scene(emit: Emit) -> Scene<Brute> {
    let mut b = Builder::new();
    b.add_shape(Wall(emit));
    brute_scene(b)
}

/// A sampler driven by a function (pixel, sample number, call number) -> number,
/// which records every sample that is started.
pub struct FnSampler {
    pub spp: u32,
    pub f: Arc<dyn Fn(Point2i, u32, u32) -> f32 + Send + Sync>,
    pub log: Option<Arc<Mutex<BTreeMap<(i32, i32, u32), u32>>>>,
    /// Records whether one or two numbers are asked for.
    pub kinds: Option<Arc<Mutex<Vec<u8>>>>,
    /// Called before every operation (to inject failures).
    pub hook: Option<Arc<dyn Fn() + Send + Sync>>,
    p: Point2i,
    k: u32,
    call: u32,
}

impl Clone for FnSampler {
    fn clone(&self) -> FnSampler {
        // only what a worker does
        if mc::sched::task_id() != 0 { self.hook(); }
        FnSampler { spp: self.spp, f: self.f.clone(), log: self.log.clone(), kinds: self.kinds.clone(), hook: self.hook.clone(), p: self.p, k: self.k, call: self.call }
    }
}

impl FnSampler {
    pub fn new(spp: u32, f: impl Fn(Point2i, u32, u32) -> f32 + Send + Sync + 'static) -> FnSampler {
        FnSampler { spp, f: Arc::new(f), log: None, kinds: None, hook: None, p: Point2i::default(), k: 0, call: 0 }
    }
    pub fn logged(mut self) -> (FnSampler, Arc<Mutex<BTreeMap<(i32, i32, u32), u32>>>) {
        let log = Arc::new(Mutex::new(BTreeMap::new()));
        self.log = Some(log.clone());
        (self, log)
    }
    fn next(&mut self) -> f32 {
        if self.call == 0 {
            if let Some(ref l) = self.log {
                *l.lock().unwrap().entry((self.p.x, self.p.y, self.k)).or_insert(0) += 1;
            }
        }
        let v = (self.f)(self.p, self.k, self.call);
        self.call += 1;
        v
    }
    fn hook(&self) {
        if let Some(ref h) = self.hook {
            h();
        }
    }
}

impl Sampler for FnSampler {
    fn start_pixel(&mut self, p: Point2i) {
        self.hook();
        self.p = p;
        self.k = 0;
        self.call = 0;
    }
    fn start_next_sample(&mut self) -> bool {
        self.hook();
        self.k += 1;
        self.call = 0;
        self.k < self.spp
    }
    fn get_1d(&mut self) -> f32 {
        self.hook();
        if let Some(ref k) = self.kinds { k.lock().unwrap().push(1); }
        self.next()
    }
    fn get_2d(&mut self) -> Point2f {
        self.hook();
        if let Some(ref k) = self.kinds { k.lock().unwrap().push(2); }
        let x = self.next();
        let y = self.next();
        Point2f::new(x, y)
    }
}

pub const OUT: &str = "output.ppm";

/// Run `f` (a render) in a world of its own and return the image it wrote.
pub fn image_of(f: impl FnOnce()) -> Result<Ppm, String> {
    let e = single(|_: &World| (), |_| f());
    if let Some(p) = e.panic_text() {
        return Err(format!("the render failed: {}", p));
    }
    let data = e.world.fs.lock().unwrap().get(OUT);
    match data {
        Some(d) => parse_ppm(&d),
        None => Err("no image was written".into()),
    }
}

/// The image an ideal film would have: filter-weighted mean per pixel.
/// `samples`: (position, radiance).  Returns per pixel (sum of weights, mean).
pub fn ideal_film(w: usize, h: usize, filter: &dyn Filter, samples: &[([f64; 2], [f64; 3])]) -> Vec<(f64, [f64; 3])> {
    let r = filter.radius() as f64;
    let mut acc = vec![(0f64, [0f64; 3]); w * h];
    for (p, l) in samples {
        let (px, py) = (p[0] - 0.5, p[1] - 0.5);
        let (x0, x1) = (((px - r).ceil()).max(0.) as i64, ((px + r).floor()).min(w as f64 - 1.) as i64);
        let (y0, y1) = (((py - r).ceil()).max(0.) as i64, ((py + r).floor()).min(h as f64 - 1.) as i64);
        for y in y0..=y1 {
            for x in x0..=x1 {
                let cell = |d: f64| ((d.abs() / r * 16.).floor() as usize).min(15);
                let at = |c: usize| ((c as f64 + 0.5) / 16. * r) as f32;
                let wgt = filter.evaluate(Point2f::new(at(cell(x as f64 - px)), at(cell(y as f64 - py)))) as f64;
                let a = &mut acc[y as usize * w + x as usize];
                a.0 += wgt;
                for c in 0..3 {
                    a.1[c] += wgt * l[c];
                }
            }
        }
    }
    for a in acc.iter_mut() {
        for c in 0..3 {
            a.1[c] = if a.0 > 0. { a.1[c] / a.0 } else { 0. };
        }
    }
    acc
}

pub fn v3(v: [f64; 3]) -> Vector3f { Vector3f::new(v[0] as f32, v[1] as f32, v[2] as f32) }
pub fn p3(v: [f64; 3]) -> Point3f { Point3f::new(v[0] as f32, v[1] as f32, v[2] as f32) }
pub fn n3(v: [f64; 3]) -> Normal3f { Normal3f::new(v[0] as f32, v[1] as f32, v[2] as f32) }
pub fn a3(v: Vector3f) -> [f64; 3] { [v.x as f64, v.y as f64, v.z as f64] }
pub fn ap(v: Point3f) -> [f64; 3] { [v.x as f64, v.y as f64, v.z as f64] }
pub fn an(v: Normal3f) -> [f64; 3] { [v.x as f64, v.y as f64, v.z as f64] }
pub fn asp(v: Spectrum) -> [f64; 3] { [v.r as f64, v.g as f64, v.b as f64] }
