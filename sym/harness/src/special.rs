//! C24: what is not a number stays visible, and no value makes a query panic.  Bit-precise:
//! every input is any IEEE number.
use crate::geom::*;
use crate::sym::*;
use cam_geom::{
    best_intersection_of_rays, linearize, Bundle, Camera, CameraFrame, ExtrinsicParameters, IntrinsicParameters,
    IntrinsicParametersOrthographic, OrthographicParams, Ray, RayBundle, WorldFrame,
    ray_bundle_types::{SharedDirectionRayBundle, SharedOriginRayBundle},
};
use nalgebra::{Isometry3, Translation3, Unit};

type T = Vec<(&'static str, i32, fn())>;

pub fn table(t: &mut T) {
    macro_rules! ob {
        ($name:literal, $f:ident) => {
            t.push((concat!("C24.", $name, ".f64"), 1, $f::<f64>));
            t.push((concat!("C24.", $name, ".f32"), 1, $f::<f32>));
        };
    }
    ob!("extrinsics", extrinsics);
    ob!("perspective", perspective);
    ob!("orthographic", orthographic);
    ob!("camera", camera);
    ob!("bundles", bundles);
    ob!("linearize", jacobian);
    ob!("rays", rays);
    ob!("total", total);
    ob!("total_view", total_view);
    ob!("view", view);
    ob!("matrix", matrix);
}

fn nan<R: Sc>() -> R {
    R::k(f64::NAN)
}
fn is_nan<R: Sc>(x: R) -> bool {
    !(x == x)
}
fn is_finite<R: Sc>(x: R) -> bool {
    x - x == R::k(0.0)
}
fn some_nan<'a, R: Sc>(v: impl IntoIterator<Item = &'a R>, l: &str) {
    ok(v.into_iter().any(|x| is_nan(*x)), l);
}
/// One of the values is not a number.
fn with_nan<R: Sc, const N: usize>(mut v: [R; N], l: &str) -> ([R; N], usize) {
    let k = choose(N, l);
    v[k] = nan();
    (v, k)
}
fn free<R: Sc>() -> Ext<R> {
    anything();
    Ext::new("")
}
fn ortho<R: Sc>(p: [R; 4]) -> IntrinsicParametersOrthographic<R> {
    OrthographicParams { sx: p[0], sy: p[1], cx: p[2], cy: p[3] }.into()
}
fn ortho_vars<R: Sc>() -> [R; 4] {
    [R::var("sx"), R::var("sy"), R::var("cx"), R::var("cy")]
}
fn persp_vars<R: Sc>() -> [R; 5] {
    [R::var("fx"), R::var("fy"), R::var("skew"), R::var("cx"), R::var("cy")]
}

fn extrinsics<R: Sc>() {
    let e = free::<R>();
    let x = v3("x");
    match choose(3, "what") {
        0 => {
            let (x, _) = with_nan(x, "coordinate");
            some_nan(sut(|| e.e.world_to_camera(&wp(x))).data.iter(), "world_to_camera of NaN");
            some_nan(sut(|| e.e.camera_to_world(&cp(x))).data.iter(), "camera_to_world of NaN");
        }
        1 => {
            let (c, k) = with_nan(e.c, "centre");
            let e = sut(|| ExtrinsicParameters::from_rotation_and_camcenter(uq(e.q), pt(c)));
            ok(is_nan(e.camcenter()[k]), "camcenter");
            some_nan(sut(|| e.world_to_camera(&wp(x))).data.iter(), "world_to_camera, centre NaN");
            some_nan(sut(|| e.camera_to_world(&cp(x))).data.iter(), "camera_to_world, centre NaN");
            some_nan(e.translation().coords.iter(), "translation, centre NaN");
        }
        _ => {
            let (t, k) = with_nan(x, "translation");
            let e = sut(|| ExtrinsicParameters::from_pose(&Isometry3::from_parts(Translation3::new(t[0], t[1], t[2]), uq(e.q))));
            ok(is_nan(e.pose().translation.vector[k]), "pose");
            some_nan(e.camcenter().coords.iter(), "camcenter, translation NaN");
            let x = v3("y");
            some_nan(sut(|| e.world_to_camera(&wp(x))).data.iter(), "world_to_camera, translation NaN");
        }
    }
}
fn perspective<R: Sc>() {
    let p = persp_vars::<R>();
    let (y, u) = (v3::<R>("y"), v2::<R>("u"));
    match choose(4, "what") {
        0 => {
            let (y, k) = with_nan(y, "coordinate");
            let u = r2(&sut(|| Persp::of(p).i.camera_to_pixel(&cp(y))).data);
            ok(k == 1 || is_nan(u[0]), "u of NaN");
            ok(k == 0 || is_nan(u[1]), "v of NaN");
        }
        1 => {
            let z = [R::k(0.0), R::k(-0.0)][choose(2, "zero")];
            let u = r2(&sut(|| Persp::of(p).i.camera_to_pixel(&cp([y[0], y[1], z]))).data);
            ok(!is_finite(u[0]), "u at depth zero");
            ok(!is_finite(u[1]), "v at depth zero");
        }
        2 => {
            let (u, k) = with_nan(u, "coordinate");
            let r = sut(|| Persp::of(p).i.pixel_to_camera(&px(u)));
            ok(is_nan(sut(|| r.directions())[(0, k)]), "direction of NaN");
            ok(is_nan(sut(|| r.point_on_ray()).data[(0, k)]), "point on the ray of NaN");
        }
        _ => {
            let (p, k) = with_nan(p, "parameter");
            let i = Persp::of(p).i;
            let v = r2(&sut(|| i.camera_to_pixel(&cp(y))).data);
            ok(is_nan(v[[0, 1, 0, 0, 1][k]]), "pixel, parameter NaN");
            let d = sut(|| sut(|| i.pixel_to_camera(&px(u))).directions());
            ok(is_nan(d[(0, [0, 1, 0, 0, 1][k])]), "direction, parameter NaN");
            ok(is_nan([i.fx(), i.fy(), i.skew(), i.cx(), i.cy()][k]), "parameter");
        }
    }
}
fn orthographic<R: Sc>() {
    let p = ortho_vars::<R>();
    let (y, u) = (v3::<R>("y"), v2::<R>("u"));
    match choose(3, "what") {
        0 => {
            let mut y = y;
            let k = choose(2, "coordinate");
            y[k] = nan();
            ok(is_nan(sut(|| ortho(p).camera_to_pixel(&cp(y))).data[(0, k)]), "pixel of NaN");
        }
        1 => {
            let (u, k) = with_nan(u, "coordinate");
            let r = sut(|| ortho(p).pixel_to_camera(&px(u)));
            ok(is_nan(sut(|| r.centers())[(0, k)]), "centre of NaN");
            ok(is_nan(sut(|| r.point_on_ray()).data[(0, k)]), "point on the ray of NaN");
            ok(is_nan(sut(|| r.point_on_ray_at_distance(R::var("t"))).data[(0, k)]), "point at a distance of NaN");
        }
        _ => {
            let (p, k) = with_nan(p, "parameter");
            ok(is_nan(sut(|| ortho(p).camera_to_pixel(&cp(y))).data[(0, k % 2)]), "pixel, parameter NaN");
            ok(is_nan(sut(|| sut(|| ortho(p).pixel_to_camera(&px(u))).centers())[(0, k % 2)]), "centre, parameter NaN");
        }
    }
}
fn camera<R: Sc>() {
    let e = free::<R>();
    let (x, u, t) = (v3::<R>("x"), v2::<R>("u"), R::var("t"));
    let c1 = sut(|| Camera::new(Persp::of(persp_vars()).i, e.e.clone()));
    let c2 = sut(|| Camera::new(ortho(ortho_vars()), e.e.clone()));
    match choose(3, "what") {
        0 => {
            let (x, _) = with_nan(x, "coordinate");
            some_nan(sut(|| c1.world_to_pixel(&wp(x))).data.iter(), "perspective: pixel of NaN");
        }
        1 => {
            let y = sut(|| c2.world_to_pixel(&wp([nan::<R>(); 3]))).data;
            ok(is_nan(y[(0, 0)]) && is_nan(y[(0, 1)]), "orthographic: pixel of NaN");
        }
        _ => {
            let (u, _) = with_nan(u, "coordinate");
            let r = sut(|| c1.pixel_to_world(&px(u)));
            some_nan(sut(|| r.directions()).iter(), "perspective: direction of NaN");
            some_nan(sut(|| r.point_on_ray()).data.iter(), "perspective: point on the ray of NaN");
            some_nan(sut(|| r.point_on_ray_at_distance(t)).data.iter(), "perspective: point at a distance of NaN");
            let r = sut(|| c2.pixel_to_world(&px(u)));
            some_nan(sut(|| r.centers()).iter(), "orthographic: centre of NaN");
            some_nan(sut(|| r.point_on_ray()).data.iter(), "orthographic: point on the ray of NaN");
            some_nan(sut(|| r.point_on_ray_at_distance(t)).data.iter(), "orthographic: point at a distance of NaN");
        }
    }
}
fn bundles<R: Sc>() {
    let e = free::<R>();
    let x = v3::<R>("x");
    let direction = choose(2, "direction or distance") == 0;
    let (x, t) = if direction { (with_nan(x, "coordinate").0, R::var("t")) } else { (x, nan()) };
    macro_rules! see {
        ($b:expr, $l:literal) => {
            let b = $b;
            some_nan(sut(|| b.point_on_ray_at_distance(t)).data.iter(), concat!($l, ": point at a distance"));
            if direction {
                some_nan(sut(|| b.point_on_ray()).data.iter(), concat!($l, ": point on the ray"));
            }
        };
    }
    let a: RayBundle<CameraFrame, SharedOriginRayBundle<R>, R, _, _> = sut(|| RayBundle::new_shared_zero_origin(row(x)));
    let b: RayBundle<CameraFrame, SharedDirectionRayBundle<R>, R, _, _> = sut(|| RayBundle::new_shared_plusz_direction(row(x)));
    let (wa, wb) = (sut(|| e.e.ray_camera_to_world(&a)), sut(|| e.e.ray_camera_to_world(&b)));
    see!(a, "shared origin");
    see!(b, "shared direction");
    see!(wa, "shared origin, moved");
    see!(wb, "shared direction, moved");
}
fn jacobian<R: Sc>() {
    let (e, x) = (free::<R>(), v3::<R>("x"));
    let c = sut(|| Camera::new(Persp::of(persp_vars()).i, e.e.clone()));
    let (x, _) = with_nan(x, "coordinate");
    let j = sut(|| linearize::JacobianPerspectiveCache::new(&c).linearize_at(&wp(x)));
    ok(j.row(0).iter().any(|x| is_nan(*x)), "row 0 of NaN");
    ok(j.row(1).iter().any(|x| is_nan(*x)), "row 1 of NaN");
}
/// Rays with fixed directions, one of them with a NaN or an infinity.
fn rays<R: Sc>() {
    let d = [[1.0, 0.0, 0.0], [0.0, 1.0, 0.0], [0.25, 0.5, 1.0]];
    let n = [2, 3][choose(2, "rays")];
    let (bad, k) = (choose(n, "ray"), choose(3, "coordinate"));
    let direction = choose(2, "direction or centre") == 0;
    let v = [R::k(f64::INFINITY), R::k(f64::NEG_INFINITY), nan()][choose(3, "value")];
    let rays: Vec<Ray<WorldFrame, R>> = (0..n)
        .map(|i| {
            let mut c = [R::k(1.0), R::k(-2.0), R::k(0.5)];
            c[(k + 1 + i) % 3] = R::var(&format!("c{i}"));
            let mut d = d[i].map(|x| R::k(x));
            if i == bad {
                if direction {
                    d[k] = v;
                } else {
                    c[k] = v;
                }
            }
            Ray::new(row(c), row(d))
        })
        .collect();
    match sut(|| best_intersection_of_rays(&rays)) {
        Ok(p) if is_nan(v) => some_nan(p.data.iter(), "intersection of NaN"),
        _ => ok(true, "no panic"),
    }
}
/// Nothing panics, whatever the values.
fn total<R: Sc>() {
    let e = free::<R>();
    let (x, u, t) = (v3::<R>("x"), v2::<R>("u"), R::var("t"));
    let k = sut(|| Persp::of(persp_vars()).i);
    let o = sut(|| ortho(ortho_vars()));
    macro_rules! bundle {
        ($b:expr) => {
            let b = $b;
            sut(|| b.directions());
            sut(|| b.centers());
            sut(|| b.point_on_ray());
            sut(|| b.point_on_ray_at_distance(t));
            sut(|| b.to_single_ray());
        };
    }
    match choose(6, "what") {
        0 => {
            sut(|| e.e.world_to_camera(&wp(x)));
            sut(|| e.e.camera_to_world(&cp(x)));
            sut(|| e.e.forward());
            sut(|| e.e.up());
            sut(|| e.e.right());
            let f = sut(|| ExtrinsicParameters::from_pose(&Isometry3::from_parts(Translation3::new(x[0], x[1], x[2]), uq(e.q))));
            sut(|| f.world_to_camera(&wp(x)));
        }
        1 => {
            sut(|| k.camera_to_pixel(&cp(x)));
            bundle!(sut(|| k.pixel_to_camera(&px(u))));
            sut(|| o.camera_to_pixel(&cp(x)));
            bundle!(sut(|| o.pixel_to_camera(&px(u))));
        }
        2 => {
            let c = sut(|| Camera::new(k.clone(), e.e.clone()));
            sut(|| c.world_to_pixel(&wp(x)));
            bundle!(sut(|| c.pixel_to_world(&px(u))));
        }
        3 => {
            let c = sut(|| Camera::new(o.clone(), e.e.clone()));
            sut(|| c.world_to_pixel(&wp(x)));
            bundle!(sut(|| c.pixel_to_world(&px(u))));
        }
        4 => {
            let a: RayBundle<CameraFrame, SharedOriginRayBundle<R>, R, _, _> = sut(|| RayBundle::new_shared_zero_origin(row(x)));
            bundle!(sut(|| e.e.ray_camera_to_world(&a)));
            bundle!(a);
        }
        _ => {
            let b: RayBundle<CameraFrame, SharedDirectionRayBundle<R>, R, _, _> = sut(|| RayBundle::new_shared_plusz_direction(row(x)));
            bundle!(sut(|| e.e.ray_camera_to_world(&b)));
            bundle!(b);
        }
    }
    ok(true, "no panic");
}
/// A view of any kind, also a degenerate one.
fn total_view<R: Sc>() {
    let (c, l, u) = (v3::<R>("c"), v3::<R>("l"), v3::<R>("up"));
    let e = sut(|| ExtrinsicParameters::from_view(&vec(c), &vec(l), &Unit::new_unchecked(vec(u))));
    sut(|| e.forward());
    sut(|| e.world_to_camera(&wp(l)));
    ok(true, "no panic");
}
/// A view with one NaN.
fn view<R: Sc>() {
    let v = [v3::<R>("c"), v3::<R>("l"), v3::<R>("up")];
    let (mut v, at) = (v, choose(9, "at"));
    v[at / 3][at % 3] = nan();
    let e = sut(|| ExtrinsicParameters::from_view(&vec(v[0]), &vec(v[1]), &Unit::new_unchecked(vec(v[2]))));
    let q = e.pose().rotation.coords;
    some_nan(e.camcenter().coords.iter().chain(q.iter()), "pose of a view with NaN");
    if at / 3 > 0 {
        some_nan(q.iter(), "rotation of a view with NaN");
    }
    some_nan(sut(|| e.world_to_camera(&wp(v3("x")))).data.iter(), "world_to_camera after a view with NaN");
}
/// A matrix with any last column, and one entry that is not a number.
fn matrix<R: Sc>() {
    let p = [[1.0, 0.0, 2.0], [0.0, -2.0, 1.0], [0.0, 0.5, 1.0]];
    let mut m = nalgebra::SMatrix::<R, 3, 4>::from_fn(|i, j| if j < 3 { R::k(p[i][j]) } else { R::var(&format!("p{i}")) });
    let at = choose(13, "entry");
    if at < 12 {
        m[(at / 4, at % 4)] = nan();
    }
    match sut(|| Camera::from_perspective_matrix(&m)) {
        Ok(c) if at < 12 => {
            let (i, e) = (c.intrinsics(), c.extrinsics());
            let all = [i.fx(), i.fy(), i.skew(), i.cx(), i.cy()];
            let q = e.pose().rotation.coords;
            some_nan(e.camcenter().coords.iter().chain(all.iter()).chain(q.iter()), "camera of NaN");
        }
        _ => ok(true, "no panic"),
    }
}
