//! C19: cameras with intrinsics models of the user.  C21: copies and equality.
use crate::geom::*;
use crate::sym::*;
use cam_geom::ray_bundle_types::{SharedDirectionRayBundle, SharedOriginRayBundle};
use cam_geom::*;
use nalgebra::allocator::Allocator;
use nalgebra::storage::{Owned, Storage};
use nalgebra::{DefaultAllocator, Dim, Dyn, Isometry3, OMatrix, SMatrix, Translation3, UnitQuaternion, U1, U2, U3};
use std::cell::RefCell;
use std::marker::PhantomData;

type T = Vec<(&'static str, i32, fn())>;

pub fn table(t: &mut T) {
    macro_rules! ob {
        ($name:literal, $($f:tt)*) => {
            t.push((concat!("C19.", $name, ".f64"), 0, $($f)*::<f64>));
            t.push((concat!("C19.", $name, ".f32"), 0, $($f)*::<f32>));
        };
    }
    ob!("project", project);
    ob!("shared_origin", origin_rays);
    ob!("shared_direction", direction_rays);
    ob!("batch", batch);
    macro_rules! eq {
        ($name:literal, $f:ident) => {
            t.push((concat!("C21.", $name, ".f64"), 0, $f::<f64>));
            t.push((concat!("C21.", $name, ".f32"), 0, $f::<f32>));
        };
    }
    eq!("extrinsics", eq_ext);
    eq!("perspective", eq_persp);
    eq!("orthographic", eq_ortho);
    eq!("camera", eq_cam);
    eq!("bundles", eq_bundles);
}

/// Kinds of bundle a model can return.
trait Kind<R: Sc>: Bundle<R> + Clone {
    /// rays with these data, in a frame turned and shifted by the given pose
    fn make<N: Dim>(pose: Isometry3<R>, data: OMatrix<R, N, U3>) -> RayBundle<CameraFrame, Self, R, N, Owned<R, N, U3>>
    where
        DefaultAllocator: Allocator<N, U3>;
}
impl<R: Sc> Kind<R> for SharedOriginRayBundle<R> {
    fn make<N: Dim>(pose: Isometry3<R>, data: OMatrix<R, N, U3>) -> RayBundle<CameraFrame, Self, R, N, Owned<R, N, U3>>
    where
        DefaultAllocator: Allocator<N, U3>,
    {
        SharedOriginRayBundle::new_shared_zero_origin().to_pose(pose, &data)
    }
}
impl<R: Sc> Kind<R> for SharedDirectionRayBundle<R> {
    fn make<N: Dim>(pose: Isometry3<R>, data: OMatrix<R, N, U3>) -> RayBundle<CameraFrame, Self, R, N, Owned<R, N, U3>>
    where
        DefaultAllocator: Allocator<N, U3>,
    {
        SharedDirectionRayBundle::new_plusz_shared_direction().to_pose(pose, &data)
    }
}

/// A model of the user: remembers what it was given and answers with given values.
#[derive(Clone)]
struct Model<R: Sc, B> {
    pose: Isometry3<R>,
    /// answers: the data of the ray of row i, the pixel of row i
    rays: Vec<[R; 3]>,
    pixels: Vec<[R; 2]>,
    points_seen: RefCell<Vec<[R; 3]>>,
    pixels_seen: RefCell<Vec<[R; 2]>>,
    kind: PhantomData<B>,
}
impl<R: Sc, B> std::fmt::Debug for Model<R, B> {
    fn fmt(&self, _: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        Ok(())
    }
}
impl<R: Sc, B: Kind<R>> Model<R, B> {
    fn new(pose: Isometry3<R>, n: usize) -> Self {
        Model {
            pose,
            rays: (0..n).map(|i| v3(&format!("ray{i}"))).collect(),
            pixels: (0..n).map(|i| v2(&format!("pix{i}"))).collect(),
            points_seen: Default::default(),
            pixels_seen: Default::default(),
            kind: PhantomData,
        }
    }
}
impl<R: Sc, B: Kind<R>> IntrinsicParameters<R> for Model<R, B> {
    type BundleType = B;
    fn pixel_to_camera<IN, NPTS>(&self, pixels: &Pixels<R, NPTS, IN>) -> RayBundle<CameraFrame, B, R, NPTS, Owned<R, NPTS, U3>>
    where
        B: Bundle<R>,
        IN: Storage<R, NPTS, U2>,
        NPTS: Dim,
        DefaultAllocator: Allocator<U1, U2>,
        DefaultAllocator: Allocator<NPTS, U2>,
        DefaultAllocator: Allocator<NPTS, U3>,
    {
        let n = pixels.data.nrows();
        let mut data = OMatrix::<R, NPTS, U3>::zeros_generic(NPTS::from_usize(n), U3);
        for i in 0..n {
            self.pixels_seen.borrow_mut().push([pixels.data[(i, 0)], pixels.data[(i, 1)]]);
            for j in 0..3 {
                data[(i, j)] = self.rays[i][j];
            }
        }
        B::make(self.pose, data)
    }
    fn camera_to_pixel<IN, NPTS>(&self, camera: &Points<CameraFrame, R, NPTS, IN>) -> Pixels<R, NPTS, Owned<R, NPTS, U2>>
    where
        IN: Storage<R, NPTS, U3>,
        NPTS: Dim,
        DefaultAllocator: Allocator<NPTS, U2>,
    {
        let n = camera.data.nrows();
        let mut data = OMatrix::<R, NPTS, U2>::zeros_generic(NPTS::from_usize(n), U2);
        for i in 0..n {
            self.points_seen.borrow_mut().push([camera.data[(i, 0)], camera.data[(i, 1)], camera.data[(i, 2)]]);
            for j in 0..2 {
                data[(i, j)] = self.pixels[i][j];
            }
        }
        Pixels::new(data)
    }
}
type Central<R> = Model<R, SharedOriginRayBundle<R>>;
type Parallel<R> = Model<R, SharedDirectionRayBundle<R>>;

fn shift<R: Sc>(o: [R; 3]) -> Isometry3<R> {
    Isometry3::from_parts(Translation3::new(o[0], o[1], o[2]), UnitQuaternion::identity())
}

/// The model is given the points in the camera frame, and its pixels come back untouched.
fn project<R: Sc>() {
    let e = Ext::<R>::new("");
    let m = Central::new(shift([R::k(0.0); 3]), 1);
    let cam = sut(|| Camera::new(m.clone(), e.e.clone()));
    let x = v3::<R>("x");
    let p = sut(|| cam.world_to_pixel(&wp(x)));
    same(p.data[(0, 0)], m.pixels[0][0], "the pixel of the model (u)");
    same(p.data[(0, 1)], m.pixels[0][1], "the pixel of the model (v)");
    let seen = cam.intrinsics().points_seen.borrow().clone();
    ok(seen.len() == 1, "the model is asked once for one point");
    for y in &seen {
        check3(*y, e.w2c(x), "the model is given the point in the camera frame");
    }
}

/// Rays of a model with a shared origin anywhere (not at the camera centre).
fn origin_rays<R: Sc>() {
    let e = Ext::<R>::new("");
    let o = v3::<R>("o");
    let m = Central::new(shift(o), 1);
    let cam = sut(|| Camera::new(m.clone(), e.e.clone()));
    let u = v2::<R>("u");
    let d = m.rays[0];
    let rays = sut(|| cam.pixel_to_world(&px(u)));
    let seen = cam.intrinsics().pixels_seen.borrow().clone();
    ok(seen.len() == 1, "the model is asked once for one pixel");
    for y in &seen {
        same(y[0], u[0], "the model is given the pixel (u)");
        same(y[1], u[1], "the model is given the pixel (v)");
    }
    let s = sut(|| rays.to_single_ray());
    check3(r3(&s.center), e.c2w(o), "the world ray starts at the moved origin");
    check3(r3(&s.direction), mtv(&e.m, d), "the world ray has the turned direction");
    let p = sut(|| rays.point_on_ray());
    check3(cross(mtv(&e.m, d), sub(r3(&p.data), e.c2w(o))), [R::k(0.0); 3], "point_on_ray is on the world ray");
    positive(dot(d, d));
    let t = R::var("t");
    let p = sut(|| rays.point_on_ray_at_distance(t));
    let v = sub(r3(&p.data), e.c2w(o));
    check3(cross(mtv(&e.m, d), v), [R::k(0.0); 3], "point_on_ray_at_distance is on the world ray");
    check(dot(v, v), t * t, "point_on_ray_at_distance is at the distance");
    check_rel(GE, t * dot(mtv(&e.m, d), v), R::k(0.0), "point_on_ray_at_distance is on the side of the sign");
}

/// Rays of a model with a shared direction anywhere (not along the optical axis).
fn direction_rays<R: Sc>() {
    let e = Ext::<R>::new("");
    let g = quat::<R>("g");
    let m = Parallel::new(Isometry3::from_parts(Translation3::identity(), uq(g)), 1);
    let gm = rotm(g);
    let cam = sut(|| Camera::new(m.clone(), e.e.clone()));
    let u = v2::<R>("u");
    let o = mv(&gm, m.rays[0]);
    let dir = mtv(&e.m, [gm[0][2], gm[1][2], gm[2][2]]);
    let rays = sut(|| cam.pixel_to_world(&px(u)));
    let s = sut(|| rays.to_single_ray());
    check3(r3(&s.center), e.c2w(o), "the world ray starts at the moved centre");
    check3(r3(&s.direction), dir, "the world ray has the turned direction");
    let t = R::var("t");
    let p = sut(|| rays.point_on_ray_at_distance(t));
    check3(r3(&p.data), add(e.c2w(o), scale(t, dir)), "point_on_ray_at_distance");
}

/// Rows stay in order on their way through the camera.
fn batch<R: Sc>() {
    let n = [0, 1, 2, 3, 5, 8, 33][choose(7, "rows")];
    let e = Ext::<R>::new("");
    let m = Central::new(shift(v3("o")), n);
    let cam = sut(|| Camera::new(m.clone(), e.e.clone()));
    let x: Vec<[R; 3]> = (0..n).map(|i| v3(&format!("x{i}"))).collect();
    let pts = Points::<WorldFrame, R, Dyn, _>::new(OMatrix::<R, Dyn, U3>::from_fn(n, |i, j| x[i][j]));
    let p = sut(|| cam.world_to_pixel(&pts));
    let seen = cam.intrinsics().points_seen.borrow().clone();
    ok(p.data.nrows() == n && seen.len() == n, "one pixel per point");
    for i in 0..n.min(seen.len()).min(p.data.nrows()) {
        check3(seen[i], e.w2c(x[i]), &format!("the model is given point {i}"));
        same(p.data[(i, 0)], m.pixels[i][0], "the pixel of the model (u)");
        same(p.data[(i, 1)], m.pixels[i][1], "the pixel of the model (v)");
    }
    let px = Pixels::<R, Dyn, _>::new(OMatrix::<R, Dyn, U2>::from_fn(n, |i, j| m.pixels[i][j]));
    let w = sut(|| cam.pixel_to_world(&px));
    ok(w.data.nrows() == n, "one ray per pixel");
    let q = sut(|| w.point_on_ray());
    let o = e.c2w(v3("o"));
    for i in 0..n.min(q.data.nrows()) {
        let v = [q.data[(i, 0)], q.data[(i, 1)], q.data[(i, 2)]];
        check3(cross(mtv(&e.m, m.rays[i]), sub(v, o)), [R::k(0.0); 3], &format!("ray {i} is the ray of pixel {i}"));
    }
}

// ---- C21 ----
fn all_equal<R: Sc>(a: &[R], b: &[R]) -> bool {
    a.iter().zip(b).all(|(x, y)| x == y)
}
/// `==` holds exactly when all parameters are equal
fn exactly<R: Sc, X: PartialEq>(x: &X, y: &X, a: &[R], b: &[R], l: &str) -> bool {
    let eq = sut(|| x == y);
    let ne = sut(|| x != y);
    ok(eq != ne, "!= is the opposite of ==");
    if eq {
        for (i, (p, q)) in a.iter().zip(b).enumerate() {
            check(*p, *q, &format!("equal {l} have equal parameters ({i})"));
        }
    } else {
        ok(!all_equal(a, b), &format!("{l} with equal parameters are equal"));
    }
    eq
}
fn eq_ext<R: Sc>() {
    let a = Ext::<R>::new("");
    let copy = sut(|| a.e.clone());
    ok(sut(|| copy == a.e), "a copy is equal");
    let x = v3::<R>("x");
    let acts = |e: &ExtrinsicParameters<R>| {
        let mut v = vec![];
        v.extend(r3(&sut(|| e.world_to_camera(&wp(x))).data));
        v.extend(r3(&sut(|| e.camera_to_world(&cp(x))).data));
        v.extend(arr(&sut(|| e.forward())));
        v.extend(arr(&sut(|| e.up())));
        v.extend(arr(&sut(|| e.right())));
        v.extend(e.matrix().iter().copied());
        v.extend(e.camcenter().coords.iter().copied());
        v
    };
    let (v, w) = (acts(&a.e), acts(&copy));
    for (i, (p, q)) in w.iter().zip(&v).enumerate() {
        same(*p, *q, &format!("a copy behaves identically ({i})"));
    }
    // different extrinsics
    let what = choose(2, "centre or rotation");
    let b = if what == 0 { Ext::of(a.q, v3::<R>("d")) } else { Ext::of(quat("g"), a.c) };
    if sut(|| a.e == b.e) {
        let w = acts(&b.e);
        for (i, (p, q)) in w.iter().zip(&v).enumerate() {
            check(*p, *q, &format!("equal extrinsics behave identically ({i})"));
        }
    } else if what == 0 {
        ok(!all_equal(&a.c, &b.c), "extrinsics with equal parameters are equal");
    } else {
        ok(!all_equal(&a.q, &b.q), "extrinsics with equal parameters are equal");
    }
}
fn persp5<R: Sc>(p: &str) -> [R; 5] {
    ["fx", "fy", "skew", "cx", "cy"].map(|n| R::var(&format!("{p}{n}")))
}
fn eq_persp<R: Sc>() {
    let (p, q) = (persp5::<R>("a."), persp5::<R>("b."));
    let (a, b) = (Persp::of(p), Persp::of(q));
    exactly(&a.i, &b.i, &p, &q, "intrinsics");
    let (a, b) = (a.i.params().clone(), b.i.params().clone());
    exactly(&a, &b, &p, &q, "parameters");
    let c = Persp::of(p);
    let copy = sut(|| c.i.clone());
    ok(sut(|| copy == c.i), "a copy is equal");
    let x = v3::<R>("x");
    nonzero(x[2]);
    let (u, v) = (sut(|| copy.camera_to_pixel(&cp(x))), sut(|| c.i.camera_to_pixel(&cp(x))));
    same(u.data[(0, 0)], v.data[(0, 0)], "a copy behaves identically (u)");
    same(u.data[(0, 1)], v.data[(0, 1)], "a copy behaves identically (v)");
    nonzero(p[0]);
    nonzero(p[1]);
    let w = v2::<R>("w");
    let (u, v) = (sut(|| copy.pixel_to_camera(&px(w)).point_on_ray()), sut(|| c.i.pixel_to_camera(&px(w)).point_on_ray()));
    same3(r3(&u.data), r3(&v.data), "a copy behaves identically (ray)");
}
fn eq_ortho<R: Sc>() {
    let n = |s: &str| ["sx", "sy", "cx", "cy"].map(|n| R::var(&format!("{s}{n}")));
    let (p, q) = (n("a."), n("b."));
    let of = |p: [R; 4]| OrthographicParams { sx: p[0], sy: p[1], cx: p[2], cy: p[3] };
    exactly(&of(p), &of(q), &p, &q, "parameters");
    let (a, b): (IntrinsicParametersOrthographic<R>, IntrinsicParametersOrthographic<R>) = (of(p).into(), of(q).into());
    exactly(&a, &b, &p, &q, "intrinsics");
    let copy = sut(|| a.clone());
    ok(sut(|| copy == a), "a copy is equal");
    let x = v3::<R>("x");
    let (u, v) = (sut(|| copy.camera_to_pixel(&cp(x))), sut(|| a.camera_to_pixel(&cp(x))));
    same(u.data[(0, 0)], v.data[(0, 0)], "a copy behaves identically (u)");
    same(u.data[(0, 1)], v.data[(0, 1)], "a copy behaves identically (v)");
}
fn eq_cam<R: Sc>() {
    let (p, q) = (persp5::<R>("a."), persp5::<R>("b."));
    let e = Ext::<R>::new("");
    let cam = |p: [R; 5], c: [R; 3]| Camera::new(Persp::of(p).i, Ext::of(e.q, c).e);
    let d = v3::<R>("d");
    if choose(2, "part") == 0 {
        let (a, b) = (cam(p, e.c), cam(q, e.c));
        exactly(&a, &b, &p, &q, "cameras");
    } else {
        let (a, b) = (cam(p, e.c), cam(p, d));
        exactly(&a, &b, &e.c, &d, "cameras");
        let copy = sut(|| a.clone());
        ok(sut(|| copy == a), "a copy is equal");
        let x = v3::<R>("x");
        nonzero(e.w2c(x)[2]);
        let (u, v) = (sut(|| copy.world_to_pixel(&wp(x))), sut(|| a.world_to_pixel(&wp(x))));
        same(u.data[(0, 0)], v.data[(0, 0)], "a copy behaves identically (u)");
        same(u.data[(0, 1)], v.data[(0, 1)], "a copy behaves identically (v)");
    }
}
fn eq_bundles<R: Sc>() {
    let p = [v3::<R>("p0"), v3::<R>("p1")];
    let q = [v3::<R>("q0"), v3::<R>("q1")];
    let m = |p: [[R; 3]; 2]| SMatrix::<R, 2, 3>::from_fn(|i, j| p[i][j]);
    let flat = |p: [[R; 3]; 2]| [p[0][0], p[0][1], p[0][2], p[1][0], p[1][1], p[1][2]];
    let (o, d) = (v3::<R>("o"), v3::<R>("d"));
    match choose(4, "bundle") {
        0 => {
            let a = sut(|| SharedOriginRayBundle::make(shift(o), m(p)));
            let b = sut(|| SharedOriginRayBundle::make(shift(o), m(q)));
            exactly(&a, &b, &flat(p), &flat(q), "bundles");
            let c = sut(|| a.clone());
            ok(sut(|| c == a), "a copy is equal");
            let t = R::var("t");
            let (x, y) = (sut(|| a.point_on_ray_at_distance(t)), sut(|| c.point_on_ray_at_distance(t)));
            for i in 0..2 {
                for j in 0..3 {
                    same(y.data[(i, j)], x.data[(i, j)], "a copy behaves identically");
                }
            }
        }
        1 => {
            let a = sut(|| SharedOriginRayBundle::make(shift(o), m(p)));
            let b = sut(|| SharedOriginRayBundle::make(shift(d), m(p)));
            exactly(&a, &b, &o, &d, "bundles");
        }
        2 => {
            let a = RayBundle::<CameraFrame, SharedDirectionRayBundle<R>, R, _, _>::new_shared_plusz_direction(m(p));
            let b = RayBundle::<CameraFrame, SharedDirectionRayBundle<R>, R, _, _>::new_shared_plusz_direction(m(q));
            exactly(&a, &b, &flat(p), &flat(q), "bundles");
            let c = sut(|| a.clone());
            ok(sut(|| c == a), "a copy is equal");
        }
        _ => {
            // turned bundles with the same data: equal only if their directions are
            let turn = |g: [R; 4]| Isometry3::from_parts(Translation3::identity(), uq(g));
            let z = [R::k(0.0); 3];
            let (g, h) = (quat::<R>("g"), quat::<R>("h"));
            let a = sut(|| SharedDirectionRayBundle::make(turn(g), m([z, z])));
            let b = sut(|| SharedDirectionRayBundle::make(turn(h), m([z, z])));
            let (gm, hm) = (rotm(g), rotm(h));
            let (x, y) = ([gm[0][2], gm[1][2], gm[2][2]], [hm[0][2], hm[1][2], hm[2][2]]);
            let eq = sut(|| a == b);
            if eq {
                check3(y, x, "equal bundles have equal directions");
            } else {
                ok(!all_equal(&g, &h), "bundles with equal parameters are equal");
            }
        }
    }
}
