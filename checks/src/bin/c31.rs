//! C31: the picture depends only on the scene itself, not on where it stands or how it is written down.
use checks::*;
use mc::num::*;
use mc::{Check, Cx, Digits, Level};
use pt::api::*;
use pt::container_simple::Simple;
use pt::filter::Filter;
use pt::scene::Scene;
use pt::vector::Normal3f;
use std::sync::Arc;

type M3 = [V; 3];
fn app(m: &M3, v: V) -> V { [dot(m[0], v), dot(m[1], v), dot(m[2], v)] }

/// How the world is moved: p -> turn(scale p) + by.
#[derive(Clone, Debug)]
struct Move { turn: M3, scale: f64, by: V }
impl Move {
    fn p(&self, v: V) -> V { add(mul(app(&self.turn, v), self.scale), self.by) }
    fn d(&self, v: V) -> V { app(&self.turn, v) }
    /// The transform that undoes it.
    fn back(&self) -> Transform {
        let t = &self.turn;
        let r = |a: usize| [t[0][a] as f32, t[1][a] as f32, t[2][a] as f32, 0.];
        let s = (1. / self.scale) as f32;
        Transform::scale(s, s, s) * Transform::from([r(0), r(1), r(2), [0., 0., 0., 1.]]) * Transform::translate(-self.by[0] as f32, -self.by[1] as f32, -self.by[2] as f32)
    }
}

#[derive(Clone, Copy, Debug)]
enum Mt { Matte(V), Board(V, V), Blocks(V, V), Plastic(V, V, f32), Metal(f32, f32), Glass(f32, f32), Mirror(V) }
impl Mt {
    fn make(&self, mv: &Move) -> Arc<dyn Material> {
        let s = |v: V| Spectrum::new(v[0] as f32, v[1] as f32, v[2] as f32);
        let c = |v: V| Arc::new(ConstantTexture::new(s(v)));
        let f = |v: f32| Arc::new(ConstantTexture::new(v));
        match *self {
            Mt::Matte(k) => Arc::new(LambertianReflectionMaterial::new(c(k))),
            Mt::Board(a, b) => Arc::new(LambertianReflectionMaterial::new(Arc::new(CheckerboardTexture::new(UVMapping2D::new(5., 3., 0.23, 0.41), s(a), s(b))))),
            Mt::Blocks(a, b) => Arc::new(LambertianReflectionMaterial::new(Arc::new(Checkerboard3DTexture::new(IdentityMapping3D::new(Transform::translate(0.37, 0.21, 0.43) * mv.back()), s(a), s(b))))),
            Mt::Plastic(a, b, r) => Arc::new(PlasticMaterial::new(c(a), c(b), f(r))),
            Mt::Metal(u, v) => Arc::new(MetalMaterial::new(c([0.9, 0.8, 0.7]), c([0.2, 0.9, 1.4]), c([3.9, 2.5, 1.8]), f(u), f(v))),
            Mt::Glass(u, v) => Arc::new(GlassMaterial::new(c([1.; 3]), c([0.9, 1., 0.95]), f(1.5), f(u), f(v))),
            Mt::Mirror(k) => Arc::new(MirrorMaterial::new(c(k))),
        }
    }
}
#[derive(Clone, Copy, Debug)]
enum Sh { Tri([V; 3], Option<[V; 3]>, bool, Mt), Ball(V, f64, Mt) }
#[derive(Clone, Copy, Debug)]
enum Lamp { Area([V; 3], bool, V), Distant(V, V) }
/// `part`: at most one of so many pixels may differ (in the room there are paths of
/// dozens of bounces along an edge and around the ball, which rounding leads elsewhere).
struct World { name: &'static str, part: usize, shapes: Vec<Sh>, lamps: Vec<Lamp>, eye: V, look: V, up: V, fov: f32 }

fn quad(a: V, b: V, c: V, d: V, m: Mt) -> [Sh; 2] { [Sh::Tri([a, b, c], None, false, m), Sh::Tri([c, d, a], None, false, m)] }

fn worlds() -> Vec<World> {
    let floor = |z: f64, e: f64, m: Mt| quad([-e, -e, z], [e, -e, z], [e, e, z], [-e, e, z], m);
    let grey = [0.6, 0.5, 0.4];
    let mut v = vec![];
    // a floor, a pyramid, balls; lamp and sun
    let mut s = vec![];
    s.extend(floor(0., 8., Mt::Matte(grey)));
    let (a, b, c, t) = ([-3., -1., 0.25], [-1., -1.5, 0.25], [-1.75, 0.75, 0.25], [-2., -0.5, 2.]);
    for (p, m) in [([a, b, t], Mt::Plastic([0.3, 0.1, 0.1], [0.5; 3], 0.2)), ([b, c, t], Mt::Metal(0.3, 0.1)), ([c, a, t], Mt::Board([0.9, 0.5, 0.4], [0.2, 0.3, 0.4]))] { s.push(Sh::Tri(p, None, false, m)); }
    s.push(Sh::Ball([1.5, 0.5, 1.], 1., Mt::Glass(0., 0.)));
    s.push(Sh::Ball([-0.25, 2., 0.75], 0.75, Mt::Mirror([0.9, 0.8, 0.7])));
    v.push(World { name: "floor, pyramid, glass and mirror balls", part: 32, shapes: s, lamps: vec![Lamp::Area([[-1., -1., 5.], [1., -1., 5.], [1., 1., 5.]], true, [6., 5., 4.]), Lamp::Distant([1., 2., 3.], [0.3, 0.3, 0.4])], eye: [-2., -9., 4.], look: [0., 0., 0.75], up: [0., 0., 1.], fov: 40. });
    // a room
    let mut s = vec![];
    let e = 3.;
    s.extend(quad([-e, -e, 0.], [e, -e, 0.], [e, e, 0.], [-e, e, 0.], Mt::Blocks([0.8; 3], [0.2, 0.3, 0.2])));
    s.extend(quad([-e, -e, 5.], [-e, e, 5.], [e, e, 5.], [e, -e, 5.], Mt::Matte([0.7; 3])));
    s.extend(quad([-e, -e, 0.], [-e, e, 0.], [-e, e, 5.], [-e, -e, 5.], Mt::Matte([0.7, 0.4, 0.4])));
    s.extend(quad([e, -e, 0.], [e, -e, 5.], [e, e, 5.], [e, e, 0.], Mt::Matte([0.4, 0.7, 0.4])));
    s.extend(quad([-e, e, 0.], [e, e, 0.], [e, e, 5.], [-e, e, 5.], Mt::Board([0.6; 3], [0.3, 0.35, 0.4])));
    s.push(Sh::Ball([1., 0.5, 1.25], 1.25, Mt::Mirror([0.95; 3])));
    v.push(World { name: "a room", part: 6, shapes: s, lamps: vec![Lamp::Area([[-1., -1., 4.75], [1., -1., 4.75], [1., 1., 4.75]], true, [5., 5., 4.]), Lamp::Area([[1., 1., 4.75], [-1., 1., 4.75], [-1., -1., 4.75]], true, [5., 4., 5.])], eye: [0.25, -8., 2.5], look: [0., 0., 2.25], up: [0.1, 0., 1.], fov: 45. });
    // a smooth surface of triangles with vertex normals, rough glass in front of it
    let mut s = vec![];
    let at = |x: i32, y: i32| { let (x, y) = (x as f64 - 2., y as f64 - 2.); [x, y, ((-(x * x + y * y) / 4.).exp() * 96.).round() / 64.] };
    let nn = |x: i32, y: i32| { let p = at(x, y); let (x, y) = (p[0], p[1]); [x / 2. * p[2], y / 2. * p[2], 1.].map(|v: f64| (v * 64.).round() / 64.) };
    for x in 0..4 { for y in 0..4 {
        let m = [Mt::Matte([0.7, 0.6, 0.5]), Mt::Metal(0.2, 0.4), Mt::Plastic([0.2, 0.3, 0.4], [0.4; 3], 0.3), Mt::Blocks([0.9, 0.8, 0.5], [0.2; 3])][((x + 2 * y) % 4) as usize];
        let (a, b, c, d) = ((x, y), (x + 1, y), (x + 1, y + 1), (x, y + 1));
        for t in [[a, b, c], [c, d, a]] { s.push(Sh::Tri(t.map(|k| at(k.0, k.1)), Some(t.map(|k| nn(k.0, k.1))), false, m)); }
    } }
    s.push(Sh::Tri([[-1., -2.5, 0.5], [0.5, -2.5, 0.25], [-0.25, -2.25, 2.5]], None, false, Mt::Glass(0.2, 0.3)));
    s.push(Sh::Tri([[0.75, -2.5, 0.5], [2., -2.25, 0.25], [1.25, -2., 2.5]], None, true, Mt::Glass(0., 0.)));
    v.push(World { name: "a smooth surface behind glass", part: 32, shapes: s, lamps: vec![Lamp::Distant([-1., -1., 2.], [0.8, 0.8, 0.7]), Lamp::Area([[-2., -6., 4.], [-1., -7., 4.], [-1.5, -6., 5.5]], true, [9.; 3]), Lamp::Distant([1., -3., 1.], [0.2, 0.2, 0.3])], eye: [0.5, -8., 3.5], look: [0., 0., 0.5], up: [0., 0., 1.], fov: 35. });
    // seen from below, steep
    let mut s = vec![];
    s.extend(floor(3., 2., Mt::Glass(0., 0.)));
    s.extend(floor(4., 6., Mt::Board([0.9, 0.9, 0.5], [0.3, 0.4, 0.6])));
    s.push(Sh::Tri([[-1., 1., 1.], [1., 1., 1.5], [0., 2., 2.]], None, true, Mt::Metal(0.1, 0.1)));
    s.push(Sh::Ball([1., -0.5, 1.75], 0.5, Mt::Glass(0., 0.)));
    s.push(Sh::Ball([1., -0.5, 1.75], 0.4375, Mt::Mirror([0.7, 0.8, 0.9])));
    v.push(World { name: "seen from below", part: 32, shapes: s, lamps: vec![Lamp::Area([[-3., -3., 0.], [3., -3., 0.], [0., 3., 0.]], false, [1.5, 1.25, 1.]), Lamp::Distant([0.2, -0.4, -3.], [0.2, 0.3, 0.4])], eye: [0.25, -0.5, -3.], look: [0., 0., 3.], up: [0.3, 1., 0.2], fov: 60. });
    v
}

const RES: [u32; 2] = [16, 12];
const SPP: u32 = 12;
const SPAN: f32 = 1.;
/// Which container, how often triangles are cut into four, whether everything is added twice, order of the shapes.
#[derive(Clone, Copy, Debug, PartialEq)]
struct Form { container: usize, cuts: u32, twice: bool, order: usize, far: bool }
const PLAIN: Form = Form { container: 0, cuts: 0, twice: false, order: 0, far: false };

fn mid(a: V, b: V) -> V { mul(add(a, b), 0.5) }
/// Four triangles with the same directions of growing coordinates.
fn cut(t: [V; 3], n: Option<[V; 3]>, rev: bool, k: u32) -> Vec<([V; 3], bool)> {
    if k == 0 || n.is_some() { return vec![(t, rev)]; }
    let (a, b, c) = (mid(t[0], t[1]), mid(t[1], t[2]), mid(t[2], t[0]));
    [([t[0], a, c], rev), ([a, t[1], b], rev), ([c, b, t[2]], rev), ([c, b, a], !rev)].into_iter().flat_map(|(t, r)| cut(t, None, r, k - 1)).collect()
}

fn builder(w: &World, mv: &Move, f: Form) -> Builder {
    let mut b = Builder::new();
    let n = w.shapes.len();
    let order: Vec<usize> = match f.order { 0 => (0..n).collect(), 1 => (0..n).rev().collect(), k => { let mut st = k; while gcd(st, n) != 1 { st += 1; } (0..n).map(|i| (i * st + k) % n).collect() } };
    for round in 0..1 + f.twice as usize {
        for &i in &order {
            match w.shapes[i] {
                Sh::Tri(v, n, rev, m) => {
                    let m = m.make(mv);
                    let cuts = match w.shapes[i] { Sh::Tri(_, _, _, Mt::Board(..)) => 0, _ => f.cuts };
                    for (v, rev) in cut(v, n, rev, cuts) {
                        b.add_shape(Triangle::new(v.map(|p| p3(mv.p(p))), n.map(|n| n.map(|x| { let d = mv.d(x); Normal3f::new(d[0] as f32, d[1] as f32, d[2] as f32) })), rev, m.clone()));
                    }
                }
                Sh::Ball(c, r, m) => if round == 0 { b.add_shape(Sphere::new(p3(mv.p(c)), (r * mv.scale) as f32, m.make(mv))) },
            }
        }
    }
    if f.far {
        // small things far behind the viewer
        let away = norm(sub(w.eye, w.look));
        for k in 0..12 {
            let c = add(add(w.eye, mul(away, 3. + k as f64)), [0.25 * (k % 3) as f64, 0.125 * (k % 4) as f64, 0.25]);
            b.add_shape(Triangle::new([c, add(c, [0.01, 0., 0.]), add(c, [0., 0.01, 0.01])].map(|p| p3(mv.p(p))), None, false, Mt::Matte([0.; 3]).make(mv)));
        }
    }
    for l in &w.lamps { match *l {
        Lamp::Area(v, rev, e) => b.add_area_light(AreaLight::new(Spectrum::new(e[0] as f32, e[1] as f32, e[2] as f32), Triangle::new(v.map(|p| p3(mv.p(p))), None, rev, Mt::Matte([0.5; 3]).make(mv)))),
        Lamp::Distant(d, e) => b.add_light(DistantLight::new(Spectrum::new(e[0] as f32, e[1] as f32, e[2] as f32), v3(mv.d(d)))),
    } }
    b
}
fn gcd(a: usize, b: usize) -> usize { if b == 0 { a } else { gcd(b, a % b) } }

fn render<C: pt::container::Container + 'static>(w: &World, mv: &Move, scene: Scene<C>) -> Result<Ppm, String> {
    let film = Film::new(Point2u::new(RES[0], RES[1]), box_filter(0.5));
    let s = HaltonSampler::new(SPP, film.sample_bbox());
    let a = RES[1] as f32 / RES[0] as f32;
    let cam = PerspectiveCamera::new(
        Transform::look_at(p3(mv.p(w.eye)), p3(mv.p(w.look)), v3(mv.d(w.up))),
        Transform::perspective(w.fov, 0.01, 1000.),
        BBox2f::new(Point2f::new(-SPAN, -SPAN * a), Point2f::new(SPAN, SPAN * a)),
        Point2u::new(RES[0], RES[1]));
    image_of(move || Integrator::new(scene, s, cam, film).render(1))
}
fn image(w: &World, mv: &Move, f: Form) -> Result<Ppm, String> {
    let b = builder(w, mv, f);
    match f.container {
        0 => render(w, mv, b.construct(|s| KdTree::new(s, None))),
        1 => render(w, mv, b.construct(|s| KdTree::new(s, Some(40)))),
        2 => render(w, mv, b.construct(|s| KdTree::new(s, Some(1)))),
        3 => render(w, mv, b.construct(Simple::new)),
        _ => render(w, mv, b.construct(Brute)),
    }
}

/// Same picture, but for single samples that fall to the other side of an edge.
fn same(w: &World, a: &Ppm, b: &Result<Ppm, String>, what: &dyn Fn() -> String, cx: &mut Cx) {
    let b = match b { Ok(b) => b, Err(e) => { cx.fail(format!("{}: {}", what(), e)); return; } };
    cx.evals(a.px.len() as u64);
    if (a.w, a.h) != (b.w, b.h) { cx.fail(format!("{}: the image has {} x {} pixels", what(), b.w, b.h)); return; }
    let off: Vec<usize> = (0..a.px.len()).filter(|&k| (0..3).any(|c| a.px[k][c].abs_diff(b.px[k][c]) > 2)).collect();
    cx.count("pixels in which a sample fell to the other side of an edge", off.len() as u64);
    if off.len() > a.px.len() / w.part {
        let k = off[0];
        cx.fail(format!("{}: {} of {} pixels differ, e.g. ({}, {}) is {:?} instead of {:?}", what(), off.len(), a.px.len(), k % a.w, k / a.w, b.px[k], a.px[k]));
    }
}

fn main() {
    let mut c = Check::new("C31", Level::Exploration);
    let ws = worlds();
    let stay = Move { turn: [[1., 0., 0.], [0., 1., 0.], [0., 0., 1.]], scale: 1., by: [0.; 3] };
    let refs: Vec<Ppm> = ws.iter().map(|w| match image(w, &stay, PLAIN) { Ok(i) => i, Err(e) => { c.case("reference", "the scenes where they stand", |cx| cx.fail(format!("{}: {}", w.name, e))); Ppm { w: 0, h: 0, px: vec![] } } }).collect();
    // the 24 turns of a cube, and three others
    let mut turns: Vec<M3> = vec![];
    for p in [[0usize, 1, 2], [1, 2, 0], [2, 0, 1], [0, 2, 1], [2, 1, 0], [1, 0, 2]] { for s in 0..8 {
        let mut m = [[0.; 3]; 3];
        for a in 0..3 { m[a][p[a]] = if s >> a & 1 == 1 { -1. } else { 1. }; }
        if dot(cross(m[0], m[1]), m[2]) > 0. { turns.push(m); }
    } }
    for (axis, ang) in [([1., 2., 3.], 0.7f64), ([-0.3, 0.1, 0.9], 2.1), ([1., -0.2, 0.05], 4.4)] {
        let (k, s, co) = (norm(axis), ang.sin(), ang.cos());
        let e = |v: V| add(add(mul(v, co), mul(cross(k, v), s)), mul(k, dot(k, v) * (1. - co)));
        let (x, y, z) = (e([1., 0., 0.]), e([0., 1., 0.]), e([0., 0., 1.]));
        turns.push([[x[0], y[0], z[0]], [x[1], y[1], z[1]], [x[2], y[2], z[2]]]);
    }
    let scales = [1., 1. / 1024., 1. / 16., 8., 1024., 3., 0.07, 1. / 65536., 65536.];
    let shifts: [V; 5] = [[0.; 3], [3., -5., 2.], [-100., 40., 70.], [0., 0., -1000.], [777., -333., 555.]];
    let thorough = c.thorough();
    let mut moves: Vec<Move> = vec![];
    for (a, t) in turns.iter().enumerate() { for (b, s) in scales.iter().enumerate() { for (k, d) in shifts.iter().enumerate() {
        // quick: one at a time, and a third of the combinations of two
        let n = (a > 0) as usize + (b > 0) as usize + (k > 0) as usize;
        if thorough || n <= 1 || (a + b + k) % 6 == 0 { moves.push(Move { turn: *t, scale: *s, by: mul(*d, *s) }); }
    } } }
    c.family("moved", "4 scenes with every kind of shape, light and material, together with their camera turned (24 turns of a cube, 3 others), scaled (1/65536 to 65536) and shifted (by up to 1000 times the unit); quick: one at a time and a sixth of the combinations; the same sampler: the same image but for single samples at edges; non-trivial: all", (ws.len() * moves.len()) as u64, |i, cx| {
        let mut d = Digits(i);
        let (w, mv) = (d.take(ws.len()), d.of(&moves));
        cx.nontrivial();
        same(&ws[w], &refs[w], &image(&ws[w], mv, PLAIN), &|| format!("{}: {:?}", ws[w].name, mv), cx);
        cx.sample(|| format!("{}: {:?}", ws[w].name, mv));
    });
    let mut forms = vec![];
    for container in 0..5 { for cuts in 0..3 { for twice in [false, true] { for order in [0, 1, 3, 7] { for far in [false, true] { forms.push(Form { container, cuts, twice, order, far }); } } } } }
    c.family("written differently", "the same 4 scenes with every combination of: three forms of the tree, the list, and testing every shape; triangles without vertex normals and surface texture cut into 4 or 16; every triangle added twice; four orders of the shapes; with small things behind the viewer: the same image but for single samples at edges; non-trivial: all", (ws.len() * forms.len()) as u64, |i, cx| {
        let mut d = Digits(i);
        let (w, f) = (d.take(ws.len()), *d.of(&forms));
        cx.nontrivial();
        same(&ws[w], &refs[w], &image(&ws[w], &stay, f), &|| format!("{}: {:?}", ws[w].name, f), cx);
        cx.sample(|| format!("{}: {:?}", ws[w].name, f));
    });
    c.finish();
}
#[allow(unused)]
fn _f(_: &dyn Filter) {}
