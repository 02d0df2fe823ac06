//! C12: every batch operation treats each row as if it were alone.
use crate::geom::*;
use crate::sym::*;
use cam_geom::{
    ray_bundle_types::{SharedDirectionRayBundle, SharedOriginRayBundle},
    Bundle, Camera, CameraFrame, IntrinsicParameters, Pixels, Points, RayBundle, WorldFrame,
};
use std::sync::atomic::{AtomicIsize, Ordering::Relaxed};
use nalgebra::{Dyn, Isometry3, OMatrix, SMatrix, Translation3, UnitQuaternion, U2, U3};

type T = Vec<(&'static str, i32, fn())>;

pub fn table(t: &mut T) {
    t.push(("C12.single.f64", 0, single::<f64>));
    t.push(("C12.single.f32", 0, single::<f32>));
    t.push(("C12.ieee.f64", 1, ieee::<f64>));
    t.push(("C12.ieee.f32", 1, ieee::<f32>));
    t.push(("C12.dynamic.f64", 0, dynamic::<f64>));
    t.push(("C12.dynamic.f32", 0, dynamic::<f32>));
    macro_rules! sizes {
        ($n:literal, $flag:literal, $a:literal, $b:literal, $step:literal) => {
            t.push((concat!("C12.rows", $n, ".f64"), $flag, || range::<f64>($a, $b, $step)));
            t.push((concat!("C12.rows", $n, ".f32"), $flag, || range::<f32>($a, $b, $step)));
        };
    }
    sizes!("11to30", 2, 11, 30, 1);
    sizes!("31to50", 2, 31, 50, 1);
    sizes!("51to70", 2, 51, 70, 1);
    sizes!("80to200", 2, 80, 200, 20);
    sizes!("127to129", 2, 127, 129, 1);
    sizes!("255to257", 2, 255, 257, 1);
    sizes!("500to512", 2, 500, 512, 12);
    sizes!("1000", 2, 1000, 1000, 1);
    sizes!("1024", 2, 1024, 1024, 1);
    sizes!("71to90", 2, 71, 90, 1);
    sizes!("91to110", 2, 91, 110, 1);
    sizes!("111to130", 2, 111, 130, 1);
    sizes!("2048", 2, 2048, 2048, 1);
    sizes!("4097", 6, 4097, 4097, 1);
    t.push(("C12.static.f64", 0, statics::<f64>));
    t.push(("C12.static.f32", 0, statics::<f32>));
    t.push(("C12.views.f64", 0, views::<f64>));
    t.push(("C12.views.f32", 0, views::<f32>));
}

const SIZES: [usize; 11] = [3, 0, 1, 2, 4, 5, 6, 7, 8, 9, 10];

struct World<R: Sc> {
    e: Ext<R>,
    k: Persp<R>,
    o: Ortho<R>,
    org: [R; 3],
    turn: [R; 4],
    t: R,
}
impl<R: Sc> World<R> {
    fn new() -> Self {
        World {
            e: Ext::new(""),
            k: Persp::new().regular(),
            o: Ortho::new(),
            org: v3("o"),
            turn: quat("g"),
            t: R::var("t"),
        }
    }
}
fn rows3<R: Sc>(n: usize) -> Vec<[R; 3]> {
    (0..n).map(|i| v3::<R>(&format!("p{i}"))).collect()
}
fn rows2<R: Sc>(n: usize) -> Vec<[R; 2]> {
    (0..n).map(|i| v2::<R>(&format!("u{i}"))).collect()
}

/// Expressions for the batch of points `$m3` and pixels `$m2` (one row per element of `$p`, `$u`).
macro_rules! with_world {
    ($w:expr, $p:expr, $u:expr, $body:ident, $m3:expr, $m2:expr) => {{
        let w = $w;
        let (p, u) = ($p, $u);
        let c1 = Camera::new(w.k.i.clone(), w.e.e.clone());
        let c2 = Camera::new(w.o.i.clone(), w.e.e.clone());
        // bundles with an arbitrary shared origin / direction
        let shift = Isometry3::from_parts(Translation3::new(w.org[0], w.org[1], w.org[2]), UnitQuaternion::identity());
        let turn = Isometry3::from_parts(Translation3::identity(), uq(w.turn));
        $body!(w, p, u, c1, c2, shift, turn, $m3, $m2);
    }};
}
/// The operation to look at (all of them when negative), and the number of the current one.
static ONLY: AtomicIsize = AtomicIsize::new(-1);
static CURRENT: AtomicIsize = AtomicIsize::new(0);
fn turn() -> bool {
    let n = CURRENT.fetch_add(1, Relaxed);
    let o = ONLY.load(Relaxed);
    o < 0 || o == n
}
macro_rules! each {
    ($p:ident, $l:expr, $batch:expr, $i:ident, $single:expr) => {if turn() {
        let b = $batch;
        let (got, want): (usize, usize) = (b.nrows(), $p.len());
        ok(got == want, concat!($l, ": one row per row"));
        for $i in 0..got.min(want) {
            let s = $single;
            for j in 0..s.ncols() {
                same(b[($i, j)], s[(0, j)], concat!($l, ": a row of a batch is the row alone"));
            }
        }
    }};
}
macro_rules! every_operation {
    ($w:ident, $p:ident, $u:ident, $c1:ident, $c2:ident, $shift:ident, $turn:ident, $m3:expr, $m2:expr) => {{
        each!($p, "world_to_camera", $w.e.e.world_to_camera(&Points::<WorldFrame, _, _, _>::new($m3)).data, i,
            $w.e.e.world_to_camera(&wp($p[i])).data);
        each!($p, "camera_to_world", $w.e.e.camera_to_world(&Points::<CameraFrame, _, _, _>::new($m3)).data, i,
            $w.e.e.camera_to_world(&cp($p[i])).data);
        each!($p, "perspective camera_to_pixel", $w.k.i.camera_to_pixel(&Points::<CameraFrame, _, _, _>::new($m3)).data, i,
            $w.k.i.camera_to_pixel(&cp($p[i])).data);
        each!($p, "orthographic camera_to_pixel", $w.o.i.camera_to_pixel(&Points::<CameraFrame, _, _, _>::new($m3)).data, i,
            $w.o.i.camera_to_pixel(&cp($p[i])).data);
        each!($p, "perspective world_to_pixel", $c1.world_to_pixel(&Points::<WorldFrame, _, _, _>::new($m3)).data, i,
            $c1.world_to_pixel(&wp($p[i])).data);
        each!($p, "orthographic world_to_pixel", $c2.world_to_pixel(&Points::<WorldFrame, _, _, _>::new($m3)).data, i,
            $c2.world_to_pixel(&wp($p[i])).data);
        each!($p, "perspective pixel_to_world point_on_ray_at_distance", $c1.pixel_to_world(&Pixels::new($m2)).point_on_ray_at_distance($w.t).data, i,
            $c1.pixel_to_world(&px($u[i])).point_on_ray_at_distance($w.t).data);
        each!($p, "orthographic pixel_to_world point_on_ray_at_distance", $c2.pixel_to_world(&Pixels::new($m2)).point_on_ray_at_distance($w.t).data, i,
            $c2.pixel_to_world(&px($u[i])).point_on_ray_at_distance($w.t).data);
        each!($p, "shared origin point_on_ray", SharedOriginRayBundle::<R>::new_shared_zero_origin().to_pose::<_, _, CameraFrame>($shift, &$m3).point_on_ray().data, i,
            SharedOriginRayBundle::<R>::new_shared_zero_origin().to_pose::<_, _, CameraFrame>($shift, &row($p[i])).point_on_ray().data);
        each!($p, "shared origin point_on_ray_at_distance", SharedOriginRayBundle::<R>::new_shared_zero_origin().to_pose::<_, _, CameraFrame>($shift, &$m3).point_on_ray_at_distance($w.t).data, i,
            SharedOriginRayBundle::<R>::new_shared_zero_origin().to_pose::<_, _, CameraFrame>($shift, &row($p[i])).point_on_ray_at_distance($w.t).data);
        each!($p, "shared direction point_on_ray", SharedDirectionRayBundle::<R>::new_plusz_shared_direction().to_pose::<_, _, CameraFrame>($turn, &$m3).point_on_ray().data, i,
            SharedDirectionRayBundle::<R>::new_plusz_shared_direction().to_pose::<_, _, CameraFrame>($turn, &row($p[i])).point_on_ray().data);
        each!($p, "shared direction point_on_ray_at_distance", SharedDirectionRayBundle::<R>::new_plusz_shared_direction().to_pose::<_, _, CameraFrame>($turn, &$m3).point_on_ray_at_distance($w.t).data, i,
            SharedDirectionRayBundle::<R>::new_plusz_shared_direction().to_pose::<_, _, CameraFrame>($turn, &row($p[i])).point_on_ray_at_distance($w.t).data);
        each!($p, "new_shared_zero_origin point_on_ray", RayBundle::<CameraFrame, SharedOriginRayBundle<R>, R, _, _>::new_shared_zero_origin($m3).point_on_ray().data, i,
            RayBundle::<CameraFrame, SharedOriginRayBundle<R>, R, _, _>::new_shared_zero_origin(row($p[i])).point_on_ray().data);
        each!($p, "new_shared_plusz_direction point_on_ray", RayBundle::<CameraFrame, SharedDirectionRayBundle<R>, R, _, _>::new_shared_plusz_direction($m3).point_on_ray().data, i,
            RayBundle::<CameraFrame, SharedDirectionRayBundle<R>, R, _, _>::new_shared_plusz_direction(row($p[i])).point_on_ray().data);
        each!($p, "perspective pixel_to_camera point_on_ray", $w.k.i.pixel_to_camera(&Pixels::new($m2)).point_on_ray().data, i,
            $w.k.i.pixel_to_camera(&px($u[i])).point_on_ray().data);
        each!($p, "perspective pixel_to_camera point_on_ray_at_distance", $w.k.i.pixel_to_camera(&Pixels::new($m2)).point_on_ray_at_distance($w.t).data, i,
            $w.k.i.pixel_to_camera(&px($u[i])).point_on_ray_at_distance($w.t).data);
        each!($p, "orthographic pixel_to_camera point_on_ray", $w.o.i.pixel_to_camera(&Pixels::new($m2)).point_on_ray().data, i,
            $w.o.i.pixel_to_camera(&px($u[i])).point_on_ray().data);
        each!($p, "orthographic pixel_to_camera point_on_ray_at_distance", $w.o.i.pixel_to_camera(&Pixels::new($m2)).point_on_ray_at_distance($w.t).data, i,
            $w.o.i.pixel_to_camera(&px($u[i])).point_on_ray_at_distance($w.t).data);
        each!($p, "perspective pixel_to_world point_on_ray", $c1.pixel_to_world(&Pixels::new($m2)).point_on_ray().data, i,
            $c1.pixel_to_world(&px($u[i])).point_on_ray().data);
        each!($p, "orthographic pixel_to_world point_on_ray", $c2.pixel_to_world(&Pixels::new($m2)).point_on_ray().data, i,
            $c2.pixel_to_world(&px($u[i])).point_on_ray().data);
        each!($p, "ray_camera_to_world shared origin point_on_ray", $w.e.e.ray_camera_to_world(&RayBundle::<CameraFrame, SharedOriginRayBundle<R>, R, _, _>::new_shared_zero_origin($m3)).point_on_ray().data, i,
            $w.e.e.ray_camera_to_world(&RayBundle::<CameraFrame, SharedOriginRayBundle<R>, R, _, _>::new_shared_zero_origin(row($p[i]))).point_on_ray().data);
        each!($p, "ray_camera_to_world shared origin point_on_ray_at_distance", $w.e.e.ray_camera_to_world(&RayBundle::<CameraFrame, SharedOriginRayBundle<R>, R, _, _>::new_shared_zero_origin($m3)).point_on_ray_at_distance($w.t).data, i,
            $w.e.e.ray_camera_to_world(&RayBundle::<CameraFrame, SharedOriginRayBundle<R>, R, _, _>::new_shared_zero_origin(row($p[i]))).point_on_ray_at_distance($w.t).data);
        each!($p, "ray_camera_to_world shared direction point_on_ray", $w.e.e.ray_camera_to_world(&RayBundle::<CameraFrame, SharedDirectionRayBundle<R>, R, _, _>::new_shared_plusz_direction($m3)).point_on_ray().data, i,
            $w.e.e.ray_camera_to_world(&RayBundle::<CameraFrame, SharedDirectionRayBundle<R>, R, _, _>::new_shared_plusz_direction(row($p[i]))).point_on_ray().data);
        each!($p, "ray_camera_to_world shared direction point_on_ray_at_distance", $w.e.e.ray_camera_to_world(&RayBundle::<CameraFrame, SharedDirectionRayBundle<R>, R, _, _>::new_shared_plusz_direction($m3)).point_on_ray_at_distance($w.t).data, i,
            $w.e.e.ray_camera_to_world(&RayBundle::<CameraFrame, SharedDirectionRayBundle<R>, R, _, _>::new_shared_plusz_direction(row($p[i]))).point_on_ray_at_distance($w.t).data);
    }};
}
macro_rules! named_operations {
    ($w:ident, $p:ident, $u:ident, $c1:ident, $c2:ident, $shift:ident, $turn:ident, $m3:expr, $m2:expr) => {{
        each!($p, "perspective pixel_to_camera", $w.k.i.pixel_to_camera(&Pixels::new($m2)).directions(), i,
            $w.k.i.pixel_to_camera(&px($u[i])).directions());
        each!($p, "perspective pixel_to_camera centers", $w.k.i.pixel_to_camera(&Pixels::new($m2)).centers(), i,
            $w.k.i.pixel_to_camera(&px($u[i])).centers());
        each!($p, "orthographic pixel_to_camera", $w.o.i.pixel_to_camera(&Pixels::new($m2)).centers(), i,
            $w.o.i.pixel_to_camera(&px($u[i])).centers());
        each!($p, "orthographic pixel_to_camera directions", $w.o.i.pixel_to_camera(&Pixels::new($m2)).directions(), i,
            $w.o.i.pixel_to_camera(&px($u[i])).directions());
        each!($p, "perspective pixel_to_world", $c1.pixel_to_world(&Pixels::new($m2)).directions(), i,
            $c1.pixel_to_world(&px($u[i])).directions());
        each!($p, "perspective pixel_to_world centers", $c1.pixel_to_world(&Pixels::new($m2)).centers(), i,
            $c1.pixel_to_world(&px($u[i])).centers());
        each!($p, "orthographic pixel_to_world", $c2.pixel_to_world(&Pixels::new($m2)).centers(), i,
            $c2.pixel_to_world(&px($u[i])).centers());
        each!($p, "orthographic pixel_to_world directions", $c2.pixel_to_world(&Pixels::new($m2)).directions(), i,
            $c2.pixel_to_world(&px($u[i])).directions());
        each!($p, "shared origin directions", SharedOriginRayBundle::<R>::new_shared_zero_origin().to_pose::<_, _, CameraFrame>($shift, &$m3).directions(), i,
            SharedOriginRayBundle::<R>::new_shared_zero_origin().to_pose::<_, _, CameraFrame>($shift, &row($p[i])).directions());
        each!($p, "shared origin centers", SharedOriginRayBundle::<R>::new_shared_zero_origin().to_pose::<_, _, CameraFrame>($shift, &$m3).centers(), i,
            SharedOriginRayBundle::<R>::new_shared_zero_origin().to_pose::<_, _, CameraFrame>($shift, &row($p[i])).centers());
        each!($p, "shared direction directions", SharedDirectionRayBundle::<R>::new_plusz_shared_direction().to_pose::<_, _, CameraFrame>($turn, &$m3).directions(), i,
            SharedDirectionRayBundle::<R>::new_plusz_shared_direction().to_pose::<_, _, CameraFrame>($turn, &row($p[i])).directions());
        each!($p, "shared direction centers", SharedDirectionRayBundle::<R>::new_plusz_shared_direction().to_pose::<_, _, CameraFrame>($turn, &$m3).centers(), i,
            SharedDirectionRayBundle::<R>::new_plusz_shared_direction().to_pose::<_, _, CameraFrame>($turn, &row($p[i])).centers());
        each!($p, "ray_camera_to_world shared origin", $w.e.e.ray_camera_to_world(&RayBundle::<CameraFrame, SharedOriginRayBundle<R>, R, _, _>::new_shared_zero_origin($m3)).directions(), i,
            $w.e.e.ray_camera_to_world(&RayBundle::<CameraFrame, SharedOriginRayBundle<R>, R, _, _>::new_shared_zero_origin(row($p[i]))).directions());
        each!($p, "ray_camera_to_world shared direction", $w.e.e.ray_camera_to_world(&RayBundle::<CameraFrame, SharedDirectionRayBundle<R>, R, _, _>::new_shared_plusz_direction($m3)).centers(), i,
            $w.e.e.ray_camera_to_world(&RayBundle::<CameraFrame, SharedDirectionRayBundle<R>, R, _, _>::new_shared_plusz_direction(row($p[i]))).centers());
    }};
}
fn dynamic<R: Sc>() {
    dynamic_n::<R>(SIZES[choose(SIZES.len(), "batch size")]);
}
/// One operation at a time.
fn single<R: Sc>() {
    const OPERATIONS: usize = 24;
    let k = choose(OPERATIONS, "operation");
    ONLY.store(k as isize, Relaxed);
    CURRENT.store(0, Relaxed);
    dynamic_n::<R>([2, 1, 3][choose(3, "batch size")]);
    assert!(CURRENT.load(Relaxed) as usize == OPERATIONS);
    ONLY.store(-1, Relaxed);
}
/// Bit-precise, rows and parameters of any value, NaN and infinities included.
fn ieee<R: Sc>() {
    anything();
    single::<R>();
}
fn range<R: Sc>(a: usize, b: usize, step: usize) {
    dynamic_n::<R>(a + step * choose((b - a) / step + 1, "batch size"));
}
fn dynamic_n<R: Sc>(n: usize) {
    let w = World::<R>::new();
    let (p, u) = (rows3::<R>(n), rows2::<R>(n));
    let m3 = OMatrix::<R, Dyn, U3>::from_fn(n, |i, j| p[i][j]);
    let m2 = OMatrix::<R, Dyn, U2>::from_fn(n, |i, j| u[i][j]);
    with_world!(&w, &p, &u, every_operation, m3.clone(), m2.clone());
}

fn fixed<R: Sc, const N: usize>()
where
    nalgebra::Const<N>: nalgebra::DimName,
{
    let w = World::<R>::new();
    let (p, u) = (rows3::<R>(N), rows2::<R>(N));
    let m3 = SMatrix::<R, N, 3>::from_fn(|i, j| p[i][j]);
    let m2 = SMatrix::<R, N, 2>::from_fn(|i, j| u[i][j]);
    with_world!(&w, &p, &u, every_operation, m3.clone(), m2.clone());
    with_world!(&w, &p, &u, named_operations, m3.clone(), m2.clone());
}
fn statics<R: Sc>() {
    match choose(10, "batch size") {
        0 => fixed::<R, 2>(),
        1 => fixed::<R, 1>(),
        2 => fixed::<R, 3>(),
        3 => fixed::<R, 4>(),
        4 => fixed::<R, 5>(),
        5 => fixed::<R, 8>(),
        6 => fixed::<R, 6>(),
        7 => fixed::<R, 7>(),
        8 => fixed::<R, 32>(),
        _ => fixed::<R, 16>(),
    }
}

fn views<R: Sc>() {
    let w = World::<R>::new();
    match choose(4, "view") {
        0 => {
            // rows 1..4 of a larger static matrix
            let (p, u) = (rows3::<R>(6), rows2::<R>(6));
            let m3 = SMatrix::<R, 6, 3>::from_fn(|i, j| p[i][j]);
            let m2 = SMatrix::<R, 6, 2>::from_fn(|i, j| u[i][j]);
            with_world!(&w, &p[1..4], &u[1..4], every_operation, m3.fixed_rows::<3>(1), m2.fixed_rows::<3>(1));
        }
        1 => {
            // rows 2..7 of a dynamic matrix
            let (p, u) = (rows3::<R>(9), rows2::<R>(9));
            let m3 = OMatrix::<R, Dyn, U3>::from_fn(9, |i, j| p[i][j]);
            let m2 = OMatrix::<R, Dyn, U2>::from_fn(9, |i, j| u[i][j]);
            with_world!(&w, &p[2..7], &u[2..7], every_operation, m3.rows(2, 5), m2.rows(2, 5));
        }
        2 => {
            // every other row
            let (p, u) = (rows3::<R>(7), rows2::<R>(7));
            let m3 = OMatrix::<R, Dyn, U3>::from_fn(7, |i, j| p[i][j]);
            let m2 = OMatrix::<R, Dyn, U2>::from_fn(7, |i, j| u[i][j]);
            let pp: Vec<_> = p.iter().step_by(2).cloned().collect();
            let uu: Vec<_> = u.iter().step_by(2).cloned().collect();
            with_world!(&w, &pp, &uu, every_operation, m3.rows_with_step(0, 4, 1), m2.rows_with_step(0, 4, 1));
        }
        _ => {
            // columns 1..4 of a wider matrix
            let (p, u) = (rows3::<R>(4), rows2::<R>(4));
            let z = R::k(0.5);
            let m3 = SMatrix::<R, 4, 5>::from_fn(|i, j| if (1..4).contains(&j) { p[i][j - 1] } else { z });
            let m2 = SMatrix::<R, 4, 5>::from_fn(|i, j| if (2..4).contains(&j) { u[i][j - 2] } else { z });
            with_world!(&w, &p, &u, every_operation, m3.fixed_columns::<3>(1), m2.fixed_columns::<2>(2));
        }
    }
}
