//! C23: results are as accurate as the arithmetic.
use crate::geom::*;
use crate::sym::*;
use cam_geom::{
    linearize, Camera, CameraFrame, ExtrinsicParameters, IntrinsicParameters, RayBundle, WorldFrame,
    ray_bundle_types::{SharedDirectionRayBundle, SharedOriginRayBundle},
};
use nalgebra::{Isometry3, Translation3};

type T = Vec<(&'static str, i32, fn())>;

pub fn table(t: &mut T) {
    macro_rules! ob {
        ($name:literal, $f:ident) => {
            t.push((concat!("C23.", $name, ".f64"), 0, $f::<f64>));
            t.push((concat!("C23.", $name, ".f32"), 0, $f::<f32>));
        };
    }
    ob!("extrinsics", extrinsics);
    ob!("from_pose", from_pose);
    ob!("perspective", perspective);
    ob!("orthographic", orthographic);
    ob!("bundles", bundles);
    ob!("world_to_pixel", world_to_pixel);
    ob!("pixel_to_world", pixel_to_world);
    ob!("matrix", matrix);
    ob!("jacobian", jacobian);
}

fn s3<R: Sc>(x: [R; 3]) -> R {
    x[0].mag() + x[1].mag() + x[2].mag()
}
fn one<R: Sc>() -> R {
    R::k(1.0)
}
fn each<'a, R: Sc>(v: impl IntoIterator<Item = &'a R>, scale: &[R], l: &str) {
    for (k, x) in v.into_iter().enumerate() {
        accurate(*x, scale[k % scale.len()], &format!("{l}[{k}]"));
    }
}

fn see_extrinsics<R: Sc>(e: &ExtrinsicParameters<R>, x: [R; 3], c: R) {
    let s = s3(x) + c;
    each(sut(|| e.world_to_camera(&wp(x))).data.iter(), &[s], "world_to_camera");
    each(sut(|| e.camera_to_world(&cp(x))).data.iter(), &[s], "camera_to_world");
    each(sut(|| e.forward()).iter(), &[one()], "forward");
    each(sut(|| e.up()).iter(), &[one()], "up");
    each(sut(|| e.right()).iter(), &[one()], "right");
    each(sut(|| *e.rotation()).matrix().iter(), &[one()], "rotation");
    each(sut(|| *e.translation()).coords.iter(), &[c], "translation");
    each(sut(|| *e.camcenter()).coords.iter(), &[c], "camcenter");
    let m = sut(|| *e.matrix());
    each(m.fixed_columns::<3>(0).iter(), &[one()], "matrix: rotation");
    each(m.column(3).iter(), &[c], "matrix: translation");
    let p = sut(|| *e.pose());
    each(p.rotation.coords.iter(), &[one()], "pose: rotation");
    each(p.translation.vector.iter(), &[c], "pose: translation");
}
fn extrinsics<R: Sc>() {
    let e = Ext::<R>::new("");
    see_extrinsics(&e.e, v3("x"), s3(e.c));
}
fn from_pose<R: Sc>() {
    let (q, t) = (quat::<R>("q"), v3::<R>("t"));
    let e = sut(|| ExtrinsicParameters::from_pose(&Isometry3::from_parts(Translation3::new(t[0], t[1], t[2]), uq(q))));
    see_extrinsics(&e, v3("x"), s3(t));
}
/// Magnitudes of the direction of the ray of pixel `u`.
fn direction<R: Sc>(k: &Persp<R>, u: [R; 2]) -> [R; 3] {
    let [fx, fy, s, cx, cy] = k.p.map(|a| a.mag());
    let y = (u[1].mag() + cy) / fy;
    [(u[0].mag() + cx + s * y) / fx, y, one()]
}
fn perspective<R: Sc>() {
    let k = Persp::<R>::new().regular();
    let (x, u) = (v3::<R>("x"), v2::<R>("u"));
    nonzero(x[2]);
    let [fx, fy, s, cx, cy] = k.p.map(|a| a.mag());
    let [a, b, z] = x.map(|a| a.mag());
    each(sut(|| k.i.camera_to_pixel(&cp(x))).data.iter(), &[(fx * a + s * b) / z + cx, fy * b / z + cy], "camera_to_pixel");
    let r = sut(|| k.i.pixel_to_camera(&px(u)));
    each(sut(|| r.directions()).iter(), &direction(&k, u), "pixel_to_camera: directions");
    each(sut(|| r.point_on_ray()).data.iter(), &direction(&k, u), "pixel_to_camera: point on the ray");
}
fn orthographic<R: Sc>() {
    let o = Ortho::<R>::new();
    let (x, u, t) = (v3::<R>("x"), v2::<R>("u"), R::var("t"));
    let [sx, sy, cx, cy] = o.p.map(|a| a.mag());
    each(sut(|| o.i.camera_to_pixel(&cp(x))).data.iter(), &[sx * x[0].mag() + cx, sy * x[1].mag() + cy], "camera_to_pixel");
    let r = sut(|| o.i.pixel_to_camera(&px(u)));
    let s = [(u[0].mag() + cx) / sx, (u[1].mag() + cy) / sy, one()];
    each(sut(|| r.centers()).iter(), &s, "pixel_to_camera: centers");
    each(sut(|| r.directions()).iter(), &[one()], "pixel_to_camera: directions");
    each(sut(|| r.point_on_ray()).data.iter(), &s, "pixel_to_camera: point on the ray");
    each(sut(|| r.point_on_ray_at_distance(t)).data.iter(), &[s[0] + t.mag(), s[1] + t.mag(), t.mag()], "pixel_to_camera: point at a distance");
}
fn bundles<R: Sc>() {
    let e = Ext::<R>::new("");
    let (x, t) = (v3::<R>("x"), R::var("t"));
    for k in x {
        nonzero(k);
    }
    let c = s3(e.c);
    let b: RayBundle<CameraFrame, SharedOriginRayBundle<R>, R, _, _> = sut(|| RayBundle::new_shared_zero_origin(row(x)));
    each(sut(|| b.point_on_ray()).data.iter(), &[s3(x)], "shared origin: point on the ray");
    each(sut(|| b.point_on_ray_at_distance(t)).data.iter(), &[t.mag()], "shared origin: point at a distance");
    let w = sut(|| e.e.ray_camera_to_world(&b));
    each(sut(|| w.directions()).iter(), &[s3(x)], "shared origin, moved: directions");
    each(sut(|| w.centers()).iter(), &[c], "shared origin, moved: centers");
    each(sut(|| w.point_on_ray()).data.iter(), &[s3(x) + c], "shared origin, moved: point on the ray");
    each(sut(|| w.point_on_ray_at_distance(t)).data.iter(), &[t.mag() + c], "shared origin, moved: point at a distance");
    let b: RayBundle<CameraFrame, SharedDirectionRayBundle<R>, R, _, _> = sut(|| RayBundle::new_shared_plusz_direction(row(x)));
    each(sut(|| b.point_on_ray()).data.iter(), &[s3(x) + one()], "shared direction: point on the ray");
    each(sut(|| b.point_on_ray_at_distance(t)).data.iter(), &[s3(x) + t.mag()], "shared direction: point at a distance");
    let w = sut(|| e.e.ray_camera_to_world(&b));
    each(sut(|| w.directions()).iter(), &[one()], "shared direction, moved: directions");
    each(sut(|| w.centers()).iter(), &[s3(x) + c], "shared direction, moved: centers");
    each(sut(|| w.point_on_ray()).data.iter(), &[s3(x) + c + one()], "shared direction, moved: point on the ray");
    each(sut(|| w.point_on_ray_at_distance(t)).data.iter(), &[s3(x) + c + t.mag()], "shared direction, moved: point at a distance");
}
fn world_to_pixel<R: Sc>() {
    let e = Ext::<R>::new("");
    let (k, o) = (Persp::<R>::new().regular(), Ortho::<R>::new());
    let x = v3::<R>("x");
    let z = e.w2c(x)[2];
    nonzero(z);
    let z = z.mag();
    let s = s3(x) + s3(e.c);
    let [fx, fy, w, cx, cy] = k.p.map(|a| a.mag());
    let c = sut(|| Camera::new(k.i.clone(), e.e.clone()));
    // the error of the depth counts in proportion to the slope
    let f = s / z * (one::<R>() + s / z);
    each(sut(|| c.world_to_pixel(&wp(x))).data.iter(), &[(fx + w + cx) * f, (fy + cy) * f], "perspective");
    let [sx, sy, cx, cy] = o.p.map(|a| a.mag());
    let c = sut(|| Camera::new(o.i.clone(), e.e.clone()));
    each(sut(|| c.world_to_pixel(&wp(x))).data.iter(), &[sx * s + cx, sy * s + cy], "orthographic");
}
fn pixel_to_world<R: Sc>() {
    let e = Ext::<R>::new("");
    let (k, o) = (Persp::<R>::new().regular(), Ortho::<R>::new());
    let (u, t) = (v2::<R>("u"), R::var("t"));
    let d = direction(&k, u);
    let d = d[0] + d[1] + d[2];
    let c = s3(e.c);
    let cam = sut(|| Camera::new(k.i.clone(), e.e.clone()));
    let r = sut(|| cam.pixel_to_world(&px(u)));
    each(sut(|| r.directions()).iter(), &[d], "perspective: directions");
    each(sut(|| r.centers()).iter(), &[c], "perspective: centers");
    each(sut(|| r.point_on_ray()).data.iter(), &[d + c], "perspective: point on the ray");
    let [sx, sy, cx, cy] = o.p.map(|a| a.mag());
    let s = (u[0].mag() + cx) / sx + (u[1].mag() + cy) / sy + c;
    let cam = sut(|| Camera::new(o.i.clone(), e.e.clone()));
    let r = sut(|| cam.pixel_to_world(&px(u)));
    each(sut(|| r.directions()).iter(), &[one()], "orthographic: directions");
    each(sut(|| r.centers()).iter(), &[s], "orthographic: centers");
    each(sut(|| r.point_on_ray()).data.iter(), &[s + one()], "orthographic: point on the ray");
    each(sut(|| r.point_on_ray_at_distance(t)).data.iter(), &[s + t.mag()], "orthographic: point at a distance");
}
/// Magnitudes of the rows of the intrinsics matrix.
fn rows<R: Sc>(k: &Persp<R>) -> [R; 3] {
    let [fx, fy, s, cx, cy] = k.p.map(|a| a.mag());
    [fx + s + cx, fy + cy, one()]
}
fn matrix<R: Sc>() {
    let (e, k) = (Ext::<R>::new(""), Persp::<R>::new().regular());
    let c = sut(|| Camera::new(k.i.clone(), e.e.clone()));
    let m = sut(|| c.as_camera_matrix());
    let t = e.w2c([R::k(0.0); 3])[2];
    nonzero(t);
    let (t, s, p) = (t.mag(), s3(e.c), rows(&k));
    for i in 0..3 {
        for j in 0..4 {
            let a = if j < 3 { one() } else { s };
            accurate(m[(i, j)], p[i] * a / t * (one::<R>() + s / t), &format!("as_camera_matrix[{i},{j}]"));
        }
    }
}
fn jacobian<R: Sc>() {
    let (e, k, x) = (Ext::<R>::new(""), Persp::<R>::new().regular(), v3::<R>("x"));
    let c = sut(|| Camera::new(k.i.clone(), e.e.clone()));
    let z = e.w2c(x)[2];
    nonzero(z);
    let (z, s, p) = (z.mag(), s3(x) + s3(e.c), rows(&k));
    let j = sut(|| linearize::JacobianPerspectiveCache::new(&c).linearize_at(&wp(x)));
    for a in 0..2 {
        for b in 0..3 {
            let f = s / z;
            accurate(j[(a, b)], p[a] / z * (one::<R>() + f) * (one::<R>() + f), &format!("linearize_at[{a},{b}]"));
        }
    }
}
