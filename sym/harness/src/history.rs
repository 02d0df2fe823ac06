//! C22: results do not depend on what was computed before.
use crate::geom::*;
use crate::sym::*;
use cam_geom::{
    best_intersection_of_rays, linearize, Bundle, Camera, CameraFrame, ExtrinsicParameters, IntrinsicParameters,
    IntrinsicParametersOrthographic, IntrinsicParametersPerspective, OrthographicParams, PerspectiveParams, Pixels,
    Points, RayBundle, WorldFrame,
};
use nalgebra::{Dyn, OMatrix, SMatrix, Unit, Vector3, U2, U3};

type T = Vec<(&'static str, i32, fn())>;

pub fn table(t: &mut T) {
    macro_rules! ob {
        ($name:literal, $flag:literal, $f:ident) => {
            t.push((concat!("C22.", $name, ".f64"), $flag, $f::<f64>));
            t.push((concat!("C22.", $name, ".f32"), $flag, $f::<f32>));
        };
    }
    ob!("extrinsics", 0, extrinsics);
    ob!("cameras", 0, cameras);
    ob!("bundles", 0, bundles);
    ob!("matrix", 0, matrix);
    ob!("views", 2, views);
    ob!("batches", 0, batches);
    ob!("rebuilt", 0, rebuilt);
    ob!("rebuilt_intrinsics", 0, rebuilt_intrinsics);
    ob!("decomposition", 2, decomposition);
    ob!("intersection", 2, intersection);
}

/// What was observed: a name and a number each.
struct Seen<R: Sc>(Vec<(&'static str, R)>);
impl<R: Sc> Seen<R> {
    fn put<'a>(&mut self, l: &'static str, x: impl IntoIterator<Item = &'a R>)
    where
        R: 'a,
    {
        for v in x {
            self.0.push((l, *v));
        }
    }
    fn like(&self, o: &Seen<R>, when: &str) {
        ok(self.0.len() == o.0.len(), &format!("{when}: as many results"));
        for ((l, a), (_, b)) in self.0.iter().zip(o.0.iter()) {
            same(*a, *b, &format!("{l}: the same result {when}"));
        }
    }
}
/// `a`, `b`: what is asked of two sets of objects; `f`: other work in between.
fn around<R: Sc>(a: impl Fn() -> Seen<R>, b: impl Fn() -> Seen<R>, f: impl Fn()) {
    let (a, b) = (|| sut(&a), || sut(&b));
    sut(&f);
    let a1 = a();
    sut(&f);
    let b1 = b();
    a1.like(&a(), "after another object");
    b1.like(&b(), "after another object");
    sut(&f);
    a1.like(&a(), "after other work");
    a1.like(&a(), "when asked twice");
    b1.like(&b(), "after another object");
}

fn persp<R: Sc>(p: [R; 5]) -> IntrinsicParametersPerspective<R> {
    PerspectiveParams { fx: p[0], fy: p[1], skew: p[2], cx: p[3], cy: p[4] }.into()
}
fn ortho<R: Sc>(p: [R; 4]) -> IntrinsicParametersOrthographic<R> {
    OrthographicParams { sx: p[0], sy: p[1], cx: p[2], cy: p[3] }.into()
}
fn other<R: Sc>() -> Persp<R> {
    Persp::of(["f", "g", "h", "i", "j"].map(R::var)).regular()
}
fn turned<R: Sc>(k: usize) -> ExtrinsicParameters<R> {
    let c = |x: f64| R::k(x);
    // 3-4-5 and 1-2-2-4 quaternions
    let q = match k % 3 {
        0 => [c(1.0), c(0.0), c(0.0), c(0.0)],
        1 => [R::frac(3.0, 5.0), c(0.0), R::frac(4.0, 5.0), c(0.0)],
        _ => [R::frac(1.0, 5.0), R::frac(2.0, 5.0), R::frac(2.0, 5.0), R::frac(4.0, 5.0)],
    };
    ExtrinsicParameters::from_rotation_and_camcenter(uq(q), pt([c(k as f64), c(0.5), c(-2.0 - k as f64)]))
}
/// Calls on fixed cameras, enough of them to push everything else out of a small memory.
fn work<R: Sc>() {
    for n in 0..12 {
        let e = turned::<R>(n);
        let k = persp([R::k(2.0 + n as f64), R::k(3.0), R::k(0.25), R::k(-1.0), R::k(4.0 + n as f64)]);
        let o = ortho([R::k(2.0), R::k(3.0 + n as f64), R::k(-1.0), R::k(4.0)]);
        let x = [R::k(0.5 + n as f64), R::k(1.5), R::k(40.0 + n as f64)];
        let u = [R::k(7.0 + n as f64), R::k(-1.5)];
        let mut s = Seen(vec![]);
        see_extrinsics(&mut s, &e, x);
        see_camera(&mut s, &Camera::new(k, e.clone()), x, u, R::k(2.5));
        see_camera(&mut s, &Camera::new(o, e), x, u, R::k(2.5));
    }
}
fn see_extrinsics<R: Sc>(s: &mut Seen<R>, e: &ExtrinsicParameters<R>, x: [R; 3]) {
    s.put("world_to_camera", e.world_to_camera(&wp(x)).data.iter());
    s.put("camera_to_world", e.camera_to_world(&cp(x)).data.iter());
    s.put("forward", e.forward().iter());
    s.put("up", e.up().iter());
    s.put("right", e.right().iter());
    s.put("camcenter", e.camcenter().coords.iter());
    s.put("translation", e.translation().coords.iter());
    s.put("rotation", e.rotation().matrix().iter());
    s.put("matrix", e.matrix().iter());
    s.put("pose", e.pose().rotation.coords.iter());
    s.put("pose", e.pose().translation.vector.iter());
}
fn see_camera<R: Sc, I: IntrinsicParameters<R>>(s: &mut Seen<R>, c: &Camera<R, I>, x: [R; 3], u: [R; 2], t: R)
where
    I::BundleType: Bundle<R>,
{
    s.put("camera_to_pixel", c.intrinsics().camera_to_pixel(&cp(x)).data.iter());
    s.put("world_to_pixel", c.world_to_pixel(&wp(x)).data.iter());
    let r = c.intrinsics().pixel_to_camera(&px(u));
    s.put("pixel_to_camera: directions", r.directions().iter());
    s.put("pixel_to_camera: centers", r.centers().iter());
    s.put("pixel_to_camera: data", r.data.iter());
    let r = c.pixel_to_world(&px(u));
    s.put("pixel_to_world: directions", r.directions().iter());
    s.put("pixel_to_world: centers", r.centers().iter());
    s.put("pixel_to_world: point_on_ray", r.point_on_ray().data.iter());
    s.put("pixel_to_world: point_on_ray_at_distance", r.point_on_ray_at_distance(t).data.iter());
    let r = r.to_single_ray();
    s.put("to_single_ray: direction", r.direction.iter());
    s.put("to_single_ray: center", r.center.iter());
}

fn extrinsics<R: Sc>() {
    let (a, b) = (Ext::<R>::new("a"), Ext::<R>::new("b"));
    let (x, y) = (v3("x"), v3("y"));
    let see = |e: &Ext<R>, x| {
        let mut s = Seen(vec![]);
        see_extrinsics(&mut s, &e.e, x);
        s
    };
    around(|| see(&a, x), || see(&b, x), work::<R>);
    // another point in between
    around(|| see(&a, x), || see(&a, y), || ());
}
fn cameras<R: Sc>() {
    let (a, b) = (Ext::<R>::new("a"), Ext::<R>::new("b"));
    let (x, u, t) = (v3("x"), v2("u"), R::var("t"));
    let (y, w, d) = (v3("y"), v2("w"), R::var("d"));
    let k = [Persp::<R>::new().regular(), other()];
    let o = [Ortho::<R>::new(), {
        let l = ["l", "m", "n", "o"].map(R::var);
        nonzero(l[0]);
        nonzero(l[1]);
        Ortho { p: l, i: ortho(l) }
    }];
    let see = |e: &Ext<R>, n: usize, x, u, t| {
        let mut s = Seen(vec![]);
        see_camera(&mut s, &Camera::new(k[n].i.clone(), e.e.clone()), x, u, t);
        see_camera(&mut s, &Camera::new(o[n].i.clone(), e.e.clone()), x, u, t);
        s
    };
    // other extrinsics, other intrinsics, other arguments
    around(|| see(&a, 0, x, u, t), || see(&b, 0, x, u, t), work::<R>);
    around(|| see(&a, 0, x, u, t), || see(&a, 1, x, u, t), || ());
    around(|| see(&a, 0, x, u, t), || see(&a, 0, y, u, t), || ());
    around(|| see(&a, 0, x, u, t), || see(&a, 0, x, w, t), || ());
    around(|| see(&a, 0, x, u, t), || see(&a, 0, x, u, d), || ());
}
fn bundles<R: Sc>() {
    use cam_geom::ray_bundle_types::{SharedDirectionRayBundle, SharedOriginRayBundle};
    let (e, f) = (Ext::<R>::new("a"), Ext::<R>::new("b"));
    let (x, y, t) = (v3("x"), v3("y"), R::var("t"));
    let see = |e: &Ext<R>, x, t| {
        let mut s = Seen(vec![]);
        macro_rules! bundle {
            ($b:expr) => {{
                let r = e.e.ray_camera_to_world(&$b);
                s.put("ray_camera_to_world: directions", r.directions().iter());
                s.put("ray_camera_to_world: centers", r.centers().iter());
                s.put("point_on_ray", $b.point_on_ray().data.iter());
                s.put("point_on_ray_at_distance", $b.point_on_ray_at_distance(t).data.iter());
            }};
        }
        let a: RayBundle<CameraFrame, SharedOriginRayBundle<R>, R, _, _> = RayBundle::new_shared_zero_origin(row(x));
        bundle!(a);
        let a: RayBundle<CameraFrame, SharedDirectionRayBundle<R>, R, _, _> = RayBundle::new_shared_plusz_direction(row(x));
        bundle!(a);
        s
    };
    around(|| see(&e, x, t), || see(&f, x, t), work::<R>);
    around(|| see(&e, x, t), || see(&e, y, t), || ());
}
/// The camera matrix and the linearisation.
fn see_matrix<R: Sc>(e: &ExtrinsicParameters<R>, k: &IntrinsicParametersPerspective<R>, x: [R; 3]) -> Seen<R> {
    let mut s = Seen(vec![]);
    let p = k.params();
    s.put("params", &[p.fx, p.fy, p.skew, p.cx, p.cy]);
    let c = Camera::new(k.clone(), e.clone());
    s.put("as_camera_matrix", c.as_camera_matrix().iter());
    s.put("linearize_at", linearize::JacobianPerspectiveCache::new(&c).linearize_at(&wp(x)).iter());
    s
}
fn matrix<R: Sc>() {
    let (a, b) = (Ext::<R>::new("a"), Ext::<R>::new("b"));
    let (x, y) = (v3("x"), v3("y"));
    let k = [Persp::<R>::new().regular(), other()];
    let f = || {
        for n in 0..4 {
            let k = persp([2.0, 3.0, 0.25, -1.0, 4.0 + n as f64].map(R::k));
            see_matrix(&turned(n), &k, [R::k(0.5 + n as f64), R::k(1.5), R::k(40.0)]);
        }
    };
    around(|| see_matrix(&a.e, &k[0].i, x), || see_matrix(&b.e, &k[0].i, x), f);
    around(|| see_matrix(&a.e, &k[0].i, x), || see_matrix(&a.e, &k[1].i, x), || ());
    around(|| see_matrix(&a.e, &k[0].i, x), || see_matrix(&a.e, &k[0].i, y), || ());
}
/// Building a camera from a view, again.
fn views<R: Sc>() {
    let see = |c: [R; 3], l: [R; 3], u: [R; 3]| {
        let v = |a: [R; 3]| Vector3::new(a[0], a[1], a[2]);
        let mut s = Seen(vec![]);
        let e = ExtrinsicParameters::from_view(&v(c), &v(l), &Unit::new_unchecked(v(u)));
        s.put("from_view: rotation", e.rotation().matrix().iter());
        s.put("from_view: camcenter", e.camcenter().coords.iter());
        s
    };
    let k = |a: [f64; 3]| a.map(R::k);
    let (c, d) = (v3::<R>("c"), v3::<R>("d"));
    let up = k([0.0, 1.0, 0.0]);
    // the target one, two and two to the side: directions with rational length
    let at = |c: [R; 3], l: [f64; 3]| add(c, k(l));
    around(
        || see(c, at(c, [1.0, 2.0, 2.0]), up),
        || see(d, at(d, [1.0, 2.0, 2.0]), up),
        || {
            see(k([1.0, 2.0, 3.0]), k([2.0, 4.0, 5.0]), up);
        },
    );
    around(
        || see(c, at(c, [1.0, 2.0, 2.0]), up),
        || see(c, at(c, [2.0, -1.0, 2.0]), up),
        || {
            see(k([1.0, 2.0, 3.0]), k([2.0, 4.0, 5.0]), k([1.0, 0.0, 0.0]));
        },
    );
}
/// Batches of different sizes one after the other.
fn batches<R: Sc>() {
    let (e, k, o) = (Ext::<R>::new(""), Persp::<R>::new().regular(), Ortho::<R>::new());
    let x: Vec<[R; 3]> = (0..6).map(|i| v3(&format!("p{i}"))).collect();
    let u: Vec<[R; 2]> = (0..6).map(|i| v2(&format!("u{i}"))).collect();
    let y: Vec<[R; 3]> = (0..6).map(|i| v3(&format!("o{i}"))).collect();
    let see = |x: &[[R; 3]], u: &[[R; 2]]| {
        let mut s = Seen(vec![]);
        let m3 = || OMatrix::<R, Dyn, U3>::from_fn(x.len(), |i, j| x[i][j]);
        let m2 = || OMatrix::<R, Dyn, U2>::from_fn(u.len(), |i, j| u[i][j]);
        s.put("world_to_camera", e.e.world_to_camera(&Points::<WorldFrame, _, _, _>::new(m3())).data.iter());
        s.put("camera_to_world", e.e.camera_to_world(&Points::<CameraFrame, _, _, _>::new(m3())).data.iter());
        macro_rules! cam {
            ($i:expr) => {{
                let c = Camera::new($i.clone(), e.e.clone());
                s.put("camera_to_pixel", c.intrinsics().camera_to_pixel(&Points::<CameraFrame, _, _, _>::new(m3())).data.iter());
                s.put("world_to_pixel", c.world_to_pixel(&Points::<WorldFrame, _, _, _>::new(m3())).data.iter());
                let r = c.pixel_to_world(&Pixels::new(m2()));
                s.put("pixel_to_world", r.data.iter());
                s.put("point_on_ray", r.point_on_ray().data.iter());
            }};
        }
        cam!(k.i);
        cam!(o.i);
        s
    };
    around(|| see(&x[..4], &u[..4]), || see(&x[..2], &u[..2]), || ());
    around(|| see(&x[..4], &u[..4]), || see(&x[1..6], &u[1..6]), || ());
    around(|| see(&x[..3], &u[..3]), || see(&y[..3], &u[3..6]), || ());
    around(|| see(&x[..3], &u[..3]), || see(&[], &[]), || ());
}
/// Objects built anew from the same values, after others have been built and dropped.
fn rebuilt<R: Sc>() {
    let (q, c) = (quat::<R>("q"), v3::<R>("c"));
    let (g, d) = (quat::<R>("g"), v3::<R>("d"));
    let (x, u) = (v3("x"), v2("u"));
    let see = |q, c| {
        let mut s = Seen(vec![]);
        let e = ExtrinsicParameters::from_rotation_and_camcenter(uq(q), pt(c));
        see_extrinsics(&mut s, &e, x);
        let e = ExtrinsicParameters::from_pose(e.pose());
        see_extrinsics(&mut s, &e, x);
        let k = persp([2.0, 3.0, 0.25, -1.0, 4.0].map(R::k));
        let r = Camera::new(k, e).pixel_to_world(&px(u));
        s.put("pixel_to_world: directions", r.directions().iter());
        s.put("pixel_to_world: centers", r.centers().iter());
        s
    };
    around(|| see(q, c), || see(g, c), work::<R>);
    around(|| see(q, c), || see(q, d), || ());
}
fn rebuilt_intrinsics<R: Sc>() {
    let k = ["fx", "fy", "skew", "cx", "cy"].map(R::var);
    let h = ["f", "g", "h", "i", "j"].map(R::var);
    let (x, u, t) = (v3("x"), v2("u"), R::var("t"));
    for z in [k[0], k[1], h[0], h[1]] {
        nonzero(z);
    }
    let see = |k: [R; 5]| {
        let mut s = Seen(vec![]);
        let e = turned::<R>(1);
        see_camera(&mut s, &Camera::new(persp(k), e.clone()), x, u, t);
        see_camera(&mut s, &Camera::new(ortho([k[0], k[1], k[3], k[4]]), e), x, u, t);
        s
    };
    around(|| see(k), || see(h), work::<R>);
    around(|| see(k), || see([k[0], k[1], k[2], h[3], h[4]]), || ());
    around(|| see(k), || see([h[0], h[1], k[2], k[3], k[4]]), || ());
    around(|| see(k), || see([k[0], k[1], h[2], k[3], k[4]]), || ());
}
/// Cameras from matrices: the same matrix again, after another one.
fn decomposition<R: Sc>() {
    let s = R::var("s");
    positive(s);
    let see = |e: &ExtrinsicParameters<R>, p: [f64; 5], s: R| {
        let mut o = Seen(vec![]);
        let c = Camera::new(persp(p.map(R::k)), e.clone());
        let m = c.as_camera_matrix() * s;
        match Camera::<R, _>::from_perspective_matrix(&m) {
            Ok(c) => {
                let i: &IntrinsicParametersPerspective<R> = c.intrinsics();
                o.put("from_perspective_matrix: intrinsics", &[i.fx(), i.fy(), i.skew(), i.cx(), i.cy()]);
                o.put("from_perspective_matrix: matrix", c.extrinsics().matrix().iter());
                o.put("from_perspective_matrix: camcenter", c.extrinsics().camcenter().coords.iter());
            }
            Err(_) => note("not recovered"),
        }
        o
    };
    let (a, b) = ([3.0, 2.0, 0.5, 1.0, -4.0], [2.0, 5.0, 0.25, 1.5, 3.0]);
    around(|| see(&turned(0), a, s), || see(&turned(0), b, R::k(1.0)), || ());
    around(|| see(&turned(0), a, s), || see(&turned(3), a, R::k(1.0)), || ());
}
/// The meeting point of two rays, again, after other rays.
fn intersection<R: Sc>() {
    let see = |c: [R; 3], d: [R; 3], t: [f64; 2]| {
        let mut s = Seen(vec![]);
        let ray = |c: [R; 3], v: [f64; 3]| cam_geom::Ray::<WorldFrame, R>::new(row(c), SMatrix::<R, 1, 3>::new(R::k(v[0]), R::k(v[1]), R::k(v[2])));
        match best_intersection_of_rays(&[ray(c, [t[0], 2.0, 2.0]), ray(d, [2.0, t[1], 2.0])]) {
            Ok(p) => s.put("best_intersection_of_rays", p.data.iter()),
            Err(_) => note("no intersection"),
        }
        s
    };
    let (c, d, f) = (v3::<R>("c"), v3::<R>("d"), v3::<R>("f"));
    around(|| see(c, d, [1.0, 1.0]), || see(c, f, [1.0, 1.0]), || ());
    around(|| see(c, d, [1.0, 1.0]), || see(c, d, [1.0, -1.0]), || ());
}
