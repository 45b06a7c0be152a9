//! C11: the k-d tree gives the same answers as testing every shape.
use checks::*;
use mc::{Check, Cx, Digits, Level};
use pt::api::*;
use pt::bbox::BBox3f;
use pt::container::Container;
use pt::interaction::Interaction;
use pt::material::Material;
use pt::ray::Ray;
use pt::shape::Shape;

use std::sync::Arc;

const INF: f32 = f32::INFINITY;

/// A closed box; its hits are computed exactly for the lattices used here.
struct Cuboid { lo: [f32; 3], hi: [f32; 3] }
impl Cuboid {
    fn hit(&self, r: &Ray) -> Option<f32> {
        let (o, d) = ([r.origin.x, r.origin.y, r.origin.z], [r.direction.x, r.direction.y, r.direction.z]);
        let (mut t0, mut t1) = (f32::NEG_INFINITY, INF);
        for a in 0..3 {
            if d[a] == 0. {
                if o[a] < self.lo[a] || o[a] > self.hi[a] { return None; }
            } else {
                let (u, v) = ((self.lo[a] - o[a]) / d[a], (self.hi[a] - o[a]) / d[a]);
                t0 = t0.max(u.min(v));
                t1 = t1.min(u.max(v));
            }
        }
        if t0 > t1 { return None; }
        let t = if t0 > 0. { t0 } else { t1 };
        if t > 0. && t < r.t_max { Some(t) } else { None }
    }
}
impl Shape for Cuboid {
    fn bbox(&self) -> BBox3f { BBox3f::new(Point3f::new(self.lo[0], self.lo[1], self.lo[2]), Point3f::new(self.hi[0], self.hi[1], self.hi[2])) }
    fn area(&self) -> f32 { 1. }
    fn intersect_p(&self, ray: &Ray) -> bool { self.hit(ray).is_some() }
    fn intersect(&self, ray: &Ray) -> Option<(Interaction, f32)> { self.hit(ray).map(|t| (Interaction { p: ray.position(t), wo: -ray.direction, ..Default::default() }, t)) }
    fn material(&self) -> Arc<dyn Material> { Arc::new(NoMaterial) }
    fn sample(&self, _: Point2f) -> Interaction { Default::default() }
}

/// A shape with a box around it that is hit only by the rays meant for it: those whose direction has the length of its
/// number.  The hit is where the ray enters the box, or leaves it if it begins inside.
struct Picked { b: Cuboid, id: usize }
fn picks(r: &Ray) -> usize {
    let d = r.direction;
    d.x.abs().max(d.y.abs()).max(d.z.abs()) as usize
}
impl Shape for Picked {
    fn bbox(&self) -> BBox3f { self.b.bbox() }
    fn area(&self) -> f32 { 1. }
    fn intersect_p(&self, ray: &Ray) -> bool { picks(ray) == self.id && self.b.hit(ray).is_some() }
    fn intersect(&self, ray: &Ray) -> Option<(Interaction, f32)> { if picks(ray) == self.id { self.b.intersect(ray) } else { None } }
    fn material(&self) -> Arc<dyn Material> { Arc::new(NoMaterial) }
    fn sample(&self, _: Point2f) -> Interaction { Default::default() }
}

/// A set of `n` boxes.
fn arrangement(style: usize, n: usize) -> Vec<[(f32, f32); 3]> {
    let side = (1..).find(|s| s * s * s >= n).unwrap();
    (0..n).map(|k| {
        let f = k as f32;
        let cell = [(k % side) as f32 * 2., (k / side % side) as f32 * 2., (k / side / side) as f32 * 2.];
        match style {
            0 => [(0., 1.), (0., 1.), (0., 1.)],                                   // all equal
            1 => [(f, f + 1.), (0., 1.), (0., 1.)],                                // a row, touching
            2 => [(2. * f, 2. * f + 1.), (0., 1.), (0., 1.)],                      // a row with gaps
            3 => [(-f - 1., f + 1.), (-f - 1., f + 1.), (-f - 1., f + 1.)],        // nested
            4 => [(cell[0], cell[0] + 1.), (cell[1], cell[1] + 1.), (cell[2], cell[2] + 1.)], // a block
            5 => [(cell[0], cell[0] + 3.), (cell[1], cell[1] + 3.), (cell[2], cell[2] + 3.)], // a block, overlapping
            6 => [(f, f), (0., 4.), (0., 4.)],                                     // parallel plates
            7 => [(0., 0.), (cell[0], cell[0] + 1.), (cell[1] + cell[2] * 100., cell[1] + cell[2] * 100. + 1.)], // plates in one plane
            8 => [(f * f, f * f + 1.), (0., f + 1.), (0., 1.)],                    // ever further apart
            _ => [(f, f + 40.), (0., 1.), (0., 1.)],                               // a row, overlapping much
        }
    }).collect()
}

fn addr(s: &Arc<dyn Shape>) -> usize { Arc::as_ptr(s) as *const () as usize }

/// Compare one ray.  Returns whether it hits.
fn compare(tree: &dyn Container, shapes: &[Arc<dyn Shape>], ray: &Ray, what: &dyn Fn() -> String, cx: &mut Cx) -> bool {
    let hits: Vec<(usize, f32, Point3f)> = shapes.iter().filter_map(|s| s.intersect(ray).map(|(i, t)| (addr(s), t, i.p))).collect();
    let best = hits.iter().map(|h| h.1).fold(INF, f32::min);
    let text = || format!("{}, ray {:?} + t {:?}, t < {:e}", what(), ray.origin, ray.direction, ray.t_max);
    match (hits.is_empty(), tree.intersect(ray)) {
        (true, None) => (),
        (true, Some(i)) => cx.fail(format!("{}: a hit at {:?} is reported, no shape is hit", text(), i.p)),
        (false, None) => cx.fail(format!("{}: no hit is reported, a shape is hit at t = {}", text(), best)),
        (false, Some(i)) => match i.shape.as_ref() {
            None => cx.fail(format!("{}: the hit carries no shape", text())),
            Some(s) => {
                // the shape recorded is hit there, and nothing is nearer
                match hits.iter().find(|h| h.0 == addr(s)) {
                    None => cx.fail(format!("{}: the shape recorded is not hit at all", text())),
                    Some(h) => if h.1 != best || h.2 != i.p { cx.fail(format!("{}: the hit reported is at t = {} ({:?}), the nearest at t = {}", text(), h.1, i.p, best)); },
                }
            }
        },
    }
    let any = shapes.iter().any(|s| s.intersect_p(ray));
    if tree.intersect_p(ray) != any { cx.fail(format!("{}: the any-hit query answers {}", text(), !any)); }
    cx.evals(1);
    !hits.is_empty()
}

struct Rays { origins: Vec<Point3f>, dirs: Vec<Vector3f>, t_max: Vec<f32> }
impl Rays {
    fn new(o: &[f32], d: &[f32], t: &[f32]) -> Rays {
        let cube = |v: &[f32]| -> Vec<[f32; 3]> { v.iter().flat_map(|x| v.iter().flat_map(move |y| v.iter().map(move |z| [*x, *y, *z]))).collect() };
        Rays {
            origins: cube(o).iter().map(|v| Point3f::new(v[0], v[1], v[2])).collect(),
            dirs: cube(d).iter().filter(|v| v.iter().any(|c| *c != 0.)).map(|v| Vector3f::new(v[0], v[1], v[2])).collect(),
            t_max: t.to_vec(),
        }
    }
    fn all(&self, f: &mut dyn FnMut(&Ray) -> bool) {
        for o in self.origins.iter() { for d in self.dirs.iter() { for t in self.t_max.iter() {
            if !f(&Ray { origin: *o, direction: *d, t_max: *t }) { return; }
        } } }
    }
    fn len(&self) -> usize { self.origins.len() * self.dirs.len() * self.t_max.len() }
}

fn scan(mk: &dyn Fn(Box<[Arc<dyn Shape>]>) -> Box<dyn Container>, shapes: Vec<Arc<dyn Shape>>, rays: &Rays, what: &dyn Fn() -> String, cx: &mut Cx) {
    let tree = mk(shapes.clone().into_boxed_slice());
    let mut n = 0;
    rays.all(&mut |r| { n += compare(&*tree, &shapes, r, what, cx) as u64; !cx.failed() });
    cx.nontrivials(n);
    cx.sample(|| format!("{}: {} of {} rays hit", what(), n, rays.len()));
}

/// Containers under test: trees of several depths and the plain list.
const KINDS: usize = 8;
fn container(kind: usize, s: Box<[Arc<dyn Shape>]>) -> Box<dyn Container> {
    match kind {
        0 => Box::new(KdTree::new(s, None)),
        1 => Box::new(KdTree::new(s, Some(0))),
        2 => Box::new(KdTree::new(s, Some(1))),
        3 => Box::new(KdTree::new(s, Some(2))),
        4 => Box::new(KdTree::new(s, Some(3))),
        5 => Box::new(KdTree::new(s, Some(5))),
        6 => Box::new(KdTree::new(s, Some(40))),
        _ => Box::new(pt::container_simple::Simple::new(s)),
    }
}

fn cuboid(x: (f32, f32), y: (f32, f32), z: (f32, f32)) -> Arc<dyn Shape> { Arc::new(Cuboid { lo: [x.0, y.0, z.0], hi: [x.1, y.1, z.1] }) }

fn multisets(kinds: usize, n: usize) -> Vec<Vec<usize>> {
    fn rec(k: usize, n: usize, from: usize, cur: &mut Vec<usize>, out: &mut Vec<Vec<usize>>) {
        if n == 0 { out.push(cur.clone()); return; }
        for i in from..k { cur.push(i); rec(k, n - 1, i, cur, out); cur.pop(); }
    }
    let mut out = Vec::new();
    rec(kinds, n, 0, &mut vec![], &mut out);
    out
}

fn main() {
    let mut c = Check::new("C11", Level::Exploration);
    c.assume("hits are computed exactly on these lattices, so the answers have to agree exactly");
    let d = [0f32, -0., 1., -1., 2., -0.5];
    // all ways nine shapes can be arranged along one axis
    let iv: Vec<(f32, f32)> = vec![(0., 0.), (0., 1.), (0., 2.), (1., 1.), (1., 2.), (2., 2.)];
    let sets = multisets(iv.len(), 9);
    let rays = Rays::new(&[-1., 0., 1., 2.5], &[0., 1., -1., -0., 2.], &[INF, 1.]);
    c.family("arrangements along an axis", "every multiset of 9 intervals with ends 0, 1, 2 along x, y or z (flat ones included; the other extents spread over a lattice), tree of default depth; all rays of a lattice; non-trivial: rays that hit", (sets.len() * 3) as u64, |i, cx| {
        let (set, axis) = (&sets[(i / 3) as usize], (i % 3) as usize);
        let shapes = set.iter().enumerate().map(|(k, s)| {
            let mut e = [iv[*s], iv[(k * 5 + s) % 6], iv[(k * 7 + 2) % 6]];
            e.rotate_right(axis);
            cuboid(e[0], e[1], e[2])
        }).collect();
        scan(&|s| container(0, s), shapes, &rays, &|| format!("intervals {:?} along axis {}", set, axis), cx);
    });
    // subsets of a 4 x 3 grid of cells, plates and points, at all depths
    let masks: Vec<u32> = (0..1u32 << 12).filter(|m| m.count_ones() >= 9).collect();
    let grays = Rays::new(&[-0.5, 0., 1., 2.], &[0., 1., -1., 0.5], &[INF, 0.5]);
    let gaps = c.pick(1usize, 3);
    c.family("grids", "every subset with at least 9 of the cells of a 4 x 3 grid (touching cells, separated cells, plates, in three orientations) and every container kind; all rays of a lattice; non-trivial: rays that hit", (masks.len() * 3 * 3 * KINDS) as u64 * gaps as u64, |i, cx| {
        let mut d = Digits(i);
        let (m, style, axis, kind) = (*d.of(&masks), d.take(3), d.take(3), d.take(KINDS));
        let g = d.take(gaps) as f32;
        let shapes = (0..12u32).filter(|k| m >> k & 1 == 1).map(|k| {
            let (x, y) = ((k % 4) as f32 + g, (k / 4) as f32);
            let w = [1., 0.5, 1.][style];
            let mut e = [(x, x + w), (y, y + w), if style == 2 { (0., 0.) } else { (0., w) }];
            e.rotate_right(axis);
            cuboid(e[0], e[1], e[2])
        }).collect();
        scan(&|s| container(kind, s), shapes, &grays, &|| format!("cells {:#x} style {} axis {} container {}", m, style, axis, kind), cx);
    });
    // few shapes, including one alone, and many equal ones
    let srays = Rays::new(&[-1., 0., 0.5, 1.], &[0., 1., -1., -0.], &[INF, 1.]);
    c.family("counts", "1..=40 shapes: all equal, in a row, nested, and plates sharing a plane, with every container kind; non-trivial: rays that hit", 40 * 4 * KINDS as u64, |i, cx| {
        let mut d = Digits(i);
        let (n, style, kind) = (d.take(40) + 1, d.take(4), d.take(KINDS));
        let shapes = (0..n).map(|k| {
            let k = k as f32;
            match style {
                0 => cuboid((0., 1.), (0., 1.), (0., 1.)),
                1 => cuboid((k, k + 1.), (0., 1.), (0., 1.)),
                2 => cuboid((-k, k), (-k, k), (0., k)),
                _ => cuboid((0., 0.), (k, k + 2.), (0., 1.)),
            }
        }).collect();
        scan(&|s| container(kind, s), shapes, &srays, &|| format!("{} shapes of style {} container {}", n, style, kind), cx);
    });
    // a few roundings apart
    c.family("close together", "2 to 30 plates at distances of 2^-22 to 2^-14 of their distance from the origin, along each axis, nearest first, last or mixed, with every container kind, rays from both sides, straight and oblique; non-trivial: rays that hit", 4 * 5 * 3 * 3 * KINDS as u64, |i, cx| {
        let mut d = Digits(i);
        let (n, gap, axis, order, kind) = (*d.of(&[2usize, 5, 12, 30]), *d.of(&[22, 20, 18, 16, 14]), d.take(3), d.take(3), d.take(KINDS));
        let gap = 0.5f32.powi(gap);
        let turn = |v: [f32; 3]| [v[(3 - axis) % 3], v[(4 - axis) % 3], v[(5 - axis) % 3]];
        let shapes: Vec<Arc<dyn Shape>> = (0..n).map(|k| {
            let k = match order { 0 => k, 1 => n - 1 - k, _ => k * 7 % 31 % n };
            let x = 1. + k as f32 * gap;
            Arc::new(Cuboid { lo: turn([x, -4., -4.]), hi: turn([x, 4., 4.]) }) as Arc<dyn Shape>
        }).collect();
        let tree = container(kind, shapes.clone().into_boxed_slice());
        let what = || format!("{} plates {:e} apart, axis {} order {} container {}", n, gap, axis, order, kind);
        let mut hit = 0;
        for o in [[-1., 0., 0.], [0., 0., 0.], [0., 1., -0.5], [2., 0.5, 0.], [3., -1., 1.]] { for dir in [[1., 0., 0.], [2., 0., -0.], [1., 0.5, -0.25], [0.5, -0.5, 0.25], [0., 1., 0.]] { for t in [INF, 1., 1. + gap, 2., 2. - gap] {
            let s = if o[0] > 1. { -1. } else { 1. };
            let (o, v) = (turn(o), turn([s * dir[0], dir[1], dir[2]]));
            let r = Ray { origin: Point3f::new(o[0], o[1], o[2]), direction: Vector3f::new(v[0], v[1], v[2]), t_max: t };
            hit += compare(&*tree, &shapes, &r, &what, cx) as u64;
            if cx.failed() { return; }
        } } }
        cx.nontrivials(hit);
        cx.sample(|| format!("{}: {} rays hit", what(), hit));
    });
    // everything tiny or huge
    c.family("other magnitudes", "the sets of 1 to 40 shapes, all lengths times 2^-60 to 2^60, rays with directions of that length or of length one, with every container kind; non-trivial: rays that hit", 4 * 5 * 6 * KINDS as u64, |i, cx| {
        let mut d = Digits(i);
        let (n, style, mag, kind) = (*d.of(&[1usize, 3, 11, 40]), d.take(5), 2f32.powi(*d.of(&[-60, -30, -20, -12, 20, 60])), d.take(KINDS));
        let b = |x: (f32, f32), y: (f32, f32), z: (f32, f32)| Arc::new(Cuboid { lo: [x.0 * mag, y.0 * mag, z.0 * mag], hi: [x.1 * mag, y.1 * mag, z.1 * mag] }) as Arc<dyn Shape>;
        let shapes: Vec<Arc<dyn Shape>> = (0..n).map(|j| {
            let k = j as f32;
            match style {
                0 => b((k, k + 1.), (0., 1.), (0., 1.)),
                1 => { let k = (n - j) as f32; b((k, k + 1.), (0., 1.), (0., 1.)) }
                2 => b((-k, k), (-k, k), (0., k)),
                3 => b((0., 0.), (k, k + 2.), (0., 1.)),
                _ => { let k = ((j * 7 + 3) % 41) as f32; b((k, k), (-1., 1.), (-1., 2.)) }
            }
        }).collect();
        let tree = container(kind, shapes.clone().into_boxed_slice());
        let what = || format!("{} shapes of style {} times {:e} container {}", n, style, mag, kind);
        let mut hit = 0;
        for o in [[-1f32, 0.5, 0.5], [-0.5, 0., 1.], [50., 0.5, 0.25], [0.5, -1., 0.5], [3.5, 0.5, 9.]] { for v in [[1f32, 0., 0.], [-1., 0., 0.], [0., 1., 0.], [0., 0., -1.], [2., 1., 0.5], [-2., 0.25, -0.5]] { for unit in [false, true] { for t in [INF, 2.] {
            let s = if unit { 1. } else { mag };
            let r = Ray { origin: Point3f::new(o[0] * mag, o[1] * mag, o[2] * mag), direction: Vector3f::new(v[0] * s, v[1] * s, v[2] * s), t_max: if unit { t * mag } else { t } };
            hit += compare(&*tree, &shapes, &r, &what, cx) as u64;
            if cx.failed() { return; }
        } } } }
        cx.nontrivials(hit);
        cx.sample(|| format!("{}: {} rays hit", what(), hit));
    });
    // larger sets, spread deterministically over a lattice
    let nsets = c.pick(120u64, 3000);
    let lrays = Rays::new(&[-1., 1.5, 4., 6.], &d, &[INF, 2.]);
    c.family("larger sets", "sets of 9 to 140 lattice boxes and plates (enumerated by a fixed scattering function), every container kind; all rays of a lattice; non-trivial: rays that hit", nsets * KINDS as u64, |i, cx| {
        let mut dg = Digits(i);
        let kind = dg.take(KINDS);
        let seed = dg.0;
        let n = [9, 16, 17, 24, 33, 48, 65, 100, 140][(seed % 9) as usize];
        let shapes = (0..n).map(|k| {
            let h = mc::num::mix(seed << 20 | k as u64);
            let e = |s: u32| { let a = (h >> s & 7) as f32; let w = [0., 0.5, 1., 2.][(h >> (s + 3) & 3) as usize]; (a, a + w) };
            cuboid(e(0), e(8), e(16))
        }).collect();
        scan(&|s| container(kind, s), shapes, &lrays, &|| format!("set {} of {} shapes, container {}", seed, n, kind), cx);
    });
    // depth: every maximum depth on the same sets
    c.family("depths", "maximum depths 0..=64 and none on sets of 40 and 90 lattice boxes; all rays of a lattice; non-trivial: rays that hit", 66 * 2, |i, cx| {
        let (dep, n) = (i / 2, if i % 2 == 0 { 40 } else { 90 });
        let shapes = (0..n).map(|k| {
            let h = mc::num::mix(77 << 20 | k as u64);
            let e = |s: u32| { let a = (h >> s & 7) as f32; (a, a + [0., 0.5, 1., 2.][(h >> (s + 3) & 3) as usize]) };
            cuboid(e(0), e(8), e(16))
        }).collect();
        scan(&|s| Box::new(KdTree::new(s, if dep == 65 { None } else { Some(dep as u32) })), shapes, &grays, &|| format!("{} shapes, depth {}", n, dep), cx);
    });
    // the code's own shapes
    let m: Arc<dyn Material> = Arc::new(NoMaterial);
    let cam: Vec<(Point3f, Vec<Vector3f>)> = [[-6.1f32, 0.3, 0.7], [0.21, 0.37, 9.3], [0.13, -0.29, 0.41], [5.3, 6.1, -4.7]].iter().map(|o| {
        let o = Point3f::new(o[0], o[1], o[2]);
        let n = c.pick(40, 160);
        let dirs = (0..n).flat_map(|a| (0..n).map(move |b| {
            // aimed at points of the region, off any lattice
            let q = Point3f::new(-3.03 + 6.11 * a as f32 / n as f32, -3.07 + 6.13 * b as f32 / n as f32, -1.01 + 0.037 * ((a * 7 + b * 3) % 54) as f32);
            q - o
        })).collect();
        (o, dirs)
    }).collect();
    c.family("spheres and triangles", "12 scenes of 9 to 150 spheres and triangles, every container kind, four origins and a lattice of aims; non-trivial: rays that hit", 12 * 4 * KINDS as u64, |i, cx| {
        let mut dg = Digits(i);
        let (kind, sc, o) = (dg.take(KINDS), dg.take(12), dg.take(4));
        let n = [9, 12, 20, 33, 60, 150][sc % 6];
        let shapes: Vec<Arc<dyn Shape>> = (0..n).map(|k| -> Arc<dyn Shape> {
            let h = mc::num::mix((sc as u64) << 32 | k as u64);
            let f = |s: u32| ((h >> s & 1023) as f32 / 1023. - 0.5) * 6.;
            let p = Point3f::new(f(0), f(10), f(20));
            if (k + sc) % 3 == 0 { Arc::new(Sphere::new(p, 0.1 + (h >> 40 & 7) as f32 * 0.09, m.clone())) } else {
                let h2 = mc::num::mix(h);
                let g = |s: u32| ((h2 >> s & 255) as f32 / 255. - 0.5) * 1.7;
                Arc::new(Triangle::new([p, p + Vector3f::new(g(0), g(8), g(16)), p + Vector3f::new(g(24), g(32), g(40))], None, false, m.clone()))
            }
        }).collect();
        let tree = container(kind, shapes.clone().into_boxed_slice());
        let mut n = 0;
        for d in cam[o].1.iter() {
            for t in [INF, 1.] {
                n += compare(&*tree, &shapes, &Ray { origin: cam[o].0, direction: *d, t_max: t }, &|| format!("scene {} container {}", sc, kind), cx) as u64;
            }
            if cx.failed() { break; }
        }
        cx.nontrivials(n);
        cx.sample(|| format!("scene {} of {} shapes, container {}: {} rays hit", sc, shapes.len(), kind, n));
    });
    // a quadratic mesh whose shared edges lie on split planes
    c.family("meshes", "a flat and a folded mesh of 2 n^2 triangles on the integer lattice, n up to 9, rays through lattice, edge and inner points; non-trivial: rays that hit", 9 * 2 * KINDS as u64, |i, cx| {
        let mut dg = Digits(i);
        let (kind, n, fold) = (dg.take(KINDS), dg.take(9) + 1, dg.take(2));
        let z = |x: usize, y: usize| if fold == 1 { ((x + y) % 2) as f32 } else { 0. };
        let p = |x: usize, y: usize| Point3f::new(x as f32, y as f32, z(x, y));
        let mut shapes: Vec<Arc<dyn Shape>> = Vec::new();
        for y in 0..n { for x in 0..n {
            shapes.push(Arc::new(Triangle::new([p(x, y), p(x + 1, y), p(x + 1, y + 1)], None, false, m.clone())));
            shapes.push(Arc::new(Triangle::new([p(x, y), p(x + 1, y + 1), p(x, y + 1)], None, false, m.clone())));
        } }
        let tree = container(kind, shapes.clone().into_boxed_slice());
        let mut k = 0;
        for y in 0..=n * 4 { for x in 0..=n * 4 { for (oz, dz) in [(4f32, -1f32), (-3., 2.), (8., -4.)] { for t in [INF, 5.] {
            let r = Ray { origin: Point3f::new(x as f32 / 4., y as f32 / 4., oz), direction: Vector3f::new(0., -0., dz), t_max: t };
            k += compare(&*tree, &shapes, &r, &|| format!("mesh {} fold {} container {}", n, fold, kind), cx) as u64;
            if cx.failed() { return; }
        } } } }
        cx.nontrivials(k);
    });
    // large sets in which every shape in turn is the only one hit
    let counts = c.pick(vec![9usize, 40, 130, 500], vec![9usize, 40, 130, 260, 500, 1000, 2500]);
    const STYLES: usize = 10;
    // quarters of the box are exact, and so are the hits along these directions
    let dirs = [[1f32, 0., 0.], [-1., 0., -0.], [0., 1., 0.], [0., -1., 0.], [-0., 0., 1.], [0., -0., -1.], [1., 0.5, 0.25], [-0.25, 0.5, -1.]];
    let picked = |kind: usize, style: usize, n: usize, dirs: &[[f32; 3]], backs: &[f32], step: usize, cx: &mut Cx| {
        let a = arrangement(style, n);
        let shapes: Vec<Arc<dyn Shape>> = a.iter().enumerate().map(|(k, e)| -> Arc<dyn Shape> { Arc::new(Picked { b: Cuboid { lo: [e[0].0, e[1].0, e[2].0], hi: [e[0].1, e[1].1, e[2].1] }, id: k + 1 }) }).collect();
        let tree = container(kind, shapes.clone().into_boxed_slice());
        let what = || format!("{} shapes of style {} container {}", n, style, kind);
        let mut hits = 0;
        for (k, e) in a.iter().enumerate().step_by(step) {
            let q: Vec<f32> = (0..3).map(|j| e[j].0 + (e[j].1 - e[j].0) * 0.5).collect();
            for d in dirs.iter() {
                // from the centre of the box, from just outside and from far outside
                for back in backs.iter() {
                    let o = Point3f::new(q[0] - d[0] * back, q[1] - d[1] * back, q[2] - d[2] * back);
                    let m = (k + 1) as f32;
                    let r = Ray { origin: o, direction: Vector3f::new(d[0] * m, d[1] * m, d[2] * m), t_max: INF };
                    let s = &shapes[k];
                    let want = s.intersect(&r).map(|h| h.1);
                    let (any, got) = (tree.intersect_p(&r), tree.intersect(&r));
                    if want.is_some() { hits += 1; }
                    if any != want.is_some() { cx.fail(format!("{}: only shape {} can be hit, the any-hit query answers {} (ray {:?} + t {:?})", what(), k, any, o, r.direction)); return; }
                    let ok = match (&got, want) { (None, None) => true, (Some(i), Some(t)) => i.p == r.position(t) && i.shape.as_ref().map_or(false, |x| addr(x) == addr(s)), _ => false };
                    if !ok { cx.fail(format!("{}: only shape {} can be hit, at {:?}, the closest hit is {:?} (ray {:?} + t {:?})", what(), k, want, got.map(|i| i.p), o, r.direction)); return; }
                    cx.evals(1);
                }
            }
        }
        cx.nontrivials(hits);
    };
    c.family("picked shapes", "9 to 500 (thorough 2500) shapes: equal, rows, nested, blocks, plates, overlapping, every container kind; each shape in turn is the only one hit, by rays from outside and inside its box along eight directions; non-trivial: rays that hit", (counts.len() * STYLES * KINDS) as u64, |i, cx| {
        let mut dg = Digits(i);
        let (kind, style, n) = (dg.take(KINDS), dg.take(STYLES), *dg.of(&counts));
        picked(kind, style, n, &dirs, &[0., 64., 8192.], 1, cx);
    });
    let big = c.pick(vec![(4usize, 40_000usize), (2, 70_000), (4, 300_000)], vec![(4, 40_000), (2, 70_000), (7, 70_000), (5, 100_000), (4, 300_000), (7, 300_000), (4, 1_200_000)]);
    // (an unlucky tree may have to test thousands of shapes for each ray)
    let c_step = c.pick(12_000usize, 40_000);
    c.family("very large sets", "rows, plates and blocks of 40 000 to 300 000 (thorough 1 200 000) shapes in a tree of default depth; each of 12 000 (thorough 40 000) of the shapes, evenly spread, in turn is the only one hit, by rays from outside and inside its box; non-trivial: rays that hit", big.len() as u64, |i, cx| {
        let (style, n) = big[i as usize];
        picked(0, style, n, &dirs[6..], &[0., 16.], n / c_step | 1, cx);
    });
    // every split has the rest of the set on its near side: the way down is as long as the tree is deep
    let ratios = [1.2f32, 1.5, 2., 4.];
    let limits = [None, Some(24u32), Some(40), Some(64), Some(100), Some(300)];
    c.family("deep trees", "100 to 500 shapes, each 1.2 to 4 times as far away and as long as the one before (or equally long, or needles of equal thickness), between 2^-62 and 2^112 on either side of the origin along each axis, in trees of default depth and of maximum depth 24 to 300; each shape in turn is the only one hit, by rays from the dense end and from the far end; non-trivial: rays that hit", (limits.len() * ratios.len() * 3 * 6) as u64, |i, cx| {
        let mut dg = Digits(i);
        let (limit, ratio, axis, kind) = (*dg.of(&limits), *dg.of(&ratios), dg.take(3), dg.take(6));
        let (sign, grow) = (if kind % 2 == 0 { 1f32 } else { -1. }, kind < 2);
        let thin = kind >= 4;
        let mut a: Vec<([f32; 3], [f32; 3])> = Vec::new();
        let mut x = 2f32.powi(if grow { -60 } else if thin { -62 } else { 0 });
        while x < 2f32.powi(if grow { 60 } else if thin { 112 } else { 20 }) && a.len() < 500 {
            let (l, h) = (x, if grow || thin { x * 1.125 } else { x + 0.0625 });
            let (mut lo, mut hi) = ([0f32; 3], [if grow { x } else if thin { 2f32.powi(-62) } else { 1. }; 3]);
            lo[axis] = l.min(h) * sign; hi[axis] = h * sign;
            if sign < 0. { let s = lo[axis]; lo[axis] = hi[axis]; hi[axis] = s; }
            a.push((lo, hi));
            x *= ratio;
        }
        let shapes: Vec<Arc<dyn Shape>> = a.iter().enumerate().map(|(k, e)| -> Arc<dyn Shape> { Arc::new(Picked { b: Cuboid { lo: e.0, hi: e.1 }, id: k + 1 }) }).collect();
        let tree = KdTree::new(shapes.clone().into_boxed_slice(), limit);
        let mut hits = 0;
        for (k, e) in a.iter().enumerate() {
            let far = a[a.len() - 1].1[axis].abs().max(a[a.len() - 1].0[axis].abs()) * 2.;
            for (from, toward) in [(0f32, sign), (-0.5 * sign, sign), (far * sign, -sign)] {
                let m = (k + 1) as f32;
                let (mut o, mut d) = ([0f32; 3], [0f32; 3]);
                for j in 0..3 { o[j] = e.0[j] + 0.5 * (e.1[j] - e.0[j]); }
                o[axis] = from;
                d[axis] = toward * m;
                let r = Ray { origin: Point3f::new(o[0], o[1], o[2]), direction: Vector3f::new(d[0], d[1], d[2]), t_max: INF };
                let what = || format!("{} shapes growing by {} along axis {} ({}), depth {:?}, ray {:?} + t {:?}", a.len(), ratio, axis, kind, limit, o, d);
                let s = &shapes[k];
                let want = s.intersect(&r).map(|h| h.1);
                let (any, got) = (tree.intersect_p(&r), tree.intersect(&r));
                if want.is_some() { hits += 1; }
                cx.evals(1);
                if !cx.check(any == want.is_some(), || format!("{}: only shape {} can be hit, the any-hit query answers {}", what(), k, any)) { return; }
                let ok = match (&got, want) { (None, None) => true, (Some(i), Some(t)) => i.p == r.position(t) && i.shape.as_ref().map_or(false, |x| addr(x) == addr(s)), _ => false };
                if !cx.check(ok, || format!("{}: only shape {} can be hit, at {:?}, the closest hit is {:?}", what(), k, want, got.as_ref().map(|i| i.p))) { return; }
            }
        }
        cx.nontrivials(hits);
        cx.sample(|| format!("{} shapes growing by {} along axis {}, depth {:?}: {} hits", a.len(), ratio, axis, limit, hits));
    });
    c.finish();
}
