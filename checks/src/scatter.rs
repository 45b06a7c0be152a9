//! Materials and local frames for the scattering checks.
use std::sync::Arc;
use mc::num::*;
use pt::api::*;
use pt::interaction::Interaction;
use pt::reflection::BSDF;
use crate::*;


#[derive(Clone, Copy, Debug, PartialEq)]
pub enum Mat {
    Matte([f32; 3]),
    Mirror([f32; 3]),
    /// reflected, transmitted, index, roughness u and v
    Glass(f32, f32, f32, f32, f32),
    /// reflectance, index, absorption, roughness u and v
    Metal(f32, [f32; 3], [f32; 3], f32, f32),
    /// diffuse, glossy, roughness
    Plastic(f32, f32, f32),
}

fn ts(v: [f32; 3]) -> Arc<ConstantTexture<Spectrum>> { Arc::new(ConstantTexture::new(Spectrum::new(v[0], v[1], v[2]))) }
fn tf(v: f32) -> Arc<ConstantTexture<f32>> { Arc::new(ConstantTexture::new(v)) }

impl Mat {
    pub fn make(&self) -> Arc<dyn Material> {
        let g = |v: f32| ts([v, v, v]);
        match *self {
            Mat::Matte(k) => Arc::new(LambertianReflectionMaterial::new(ts(k))),
            Mat::Mirror(k) => Arc::new(MirrorMaterial::new(ts(k))),
            Mat::Glass(r, t, eta, u, v) => Arc::new(GlassMaterial::new(g(r), g(t), tf(eta), tf(u), tf(v))),
            Mat::Metal(r, eta, k, u, v) => Arc::new(MetalMaterial::new(g(r), ts(eta), ts(k), tf(u), tf(v))),
            Mat::Plastic(d, s, r) => Arc::new(PlasticMaterial::new(g(d), g(s), tf(r))),
        }
    }
    pub fn eta(&self) -> f64 { match *self { Mat::Glass(_, _, e, _, _) => e as f64, _ => 1. } }
    /// Has it lobes that transmit?
    pub fn transmits(&self) -> bool { match *self { Mat::Glass(_, t, ..) => t > 0., _ => false } }
}

/// A surface point: geometric and shading normal and tangent.
#[derive(Clone, Copy, Debug)]
pub struct Frame { pub gn: V, pub sn: V, pub s: V }
impl Frame {
    pub fn new(gn: V, tilt: f64, turn: f64) -> Frame {
        let gn = norm(gn);
        let u = norm(cross(gn, if gn[0].abs() < 0.6 { [1., 0., 0.] } else { [0., 1., 0.] }));
        let w = cross(gn, u);
        let sn = add(mul(gn, tilt.cos()), mul(u, tilt.sin()));
        let a = norm(cross(sn, w));
        let b = cross(sn, a);
        Frame { gn, sn, s: add(mul(a, turn.cos()), mul(b, turn.sin())) }
    }
    pub fn plain() -> Frame { Frame { gn: [0., 0., 1.], sn: [0., 0., 1.], s: [1., 0., 0.] } }
    pub fn world(&self, v: V) -> V { let t = cross(self.sn, self.s); add(add(mul(self.s, v[0]), mul(t, v[1])), mul(self.sn, v[2])) }
    pub fn local(&self, w: V) -> V { [dot(w, self.s), dot(w, cross(self.sn, self.s)), dot(w, self.sn)] }
    pub fn interaction(&self) -> Interaction {
        let n = Vector3f::from(n3(self.sn));
        let dpdu = v3(mul(self.s, 2.5));
        Interaction { p: p3([0.3, 0.2, 0.1]), n: n3(self.gn), sn: n3(self.sn), dpdu, dpdv: n.cross(dpdu), ..Default::default() }
    }
    pub fn bsdf(&self, m: &Mat) -> BSDF { m.make().compute_scattering(&self.interaction()) }
}

pub fn polar(cos: f64, phi: f64) -> V { let s = (1. - cos * cos).max(0.).sqrt(); [s * phi.cos(), s * phi.sin(), cos] }

/// Directions spread evenly over the sphere.
pub fn fib(k: usize, n: usize) -> V { polar(1. - (2. * k as f64 + 1.) / n as f64, k as f64 * 2.39996322972865332) }

/// Unpolarised reflected share at a boundary from index 1 to `eta`; `cos` < 0: from the other side.
pub fn fresnel(cos: f64, eta: f64) -> f64 {
    let (c, e) = if cos > 0. { (cos, eta) } else { (-cos, 1. / eta) };
    let s2 = (1. - c * c) / (e * e);
    if s2 >= 1. { return 1.; }
    let ct = (1. - s2).sqrt();
    // sine and tangent form would divide by zero head on; these are the amplitude ratios
    let (rs, rp) = ((c - e * ct) / (c + e * ct), (ct - e * c) / (ct + e * c));
    (rs * rs + rp * rp) / 2.
}

/// The same for a metal with index eta + i k, by complex arithmetic.
pub fn fresnel_metal(cos: f64, eta: f64, k: f64) -> f64 {
    let c = cos.abs();
    type C = (f64, f64);
    let mulc = |a: C, b: C| (a.0 * b.0 - a.1 * b.1, a.0 * b.1 + a.1 * b.0);
    let n2 = mulc((eta, k), (eta, k));
    let z = (n2.0 - (1. - c * c), n2.1);
    let m = (z.0 * z.0 + z.1 * z.1).sqrt();
    let root = (((m + z.0) / 2.).max(0.).sqrt(), ((m - z.0) / 2.).max(0.).sqrt());
    let sq = |a: C, b: C| { let (x, y) = ((a.0 - b.0, a.1 - b.1), (a.0 + b.0, a.1 + b.1)); (x.0 * x.0 + x.1 * x.1) / (y.0 * y.0 + y.1 * y.1) };
    let rs = sq((c, 0.), root);
    let nc = (n2.0 * c, n2.1 * c);
    let rp = sq(nc, root);
    (rs + rp) / 2.
}
