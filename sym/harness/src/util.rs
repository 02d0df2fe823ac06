//! C20: the round-trip test utility.
use crate::sym::*;
use cam_geom::intrinsic_test_utils::roundtrip_intrinsics;
use cam_geom::*;
use nalgebra::allocator::Allocator;
use nalgebra::storage::{Owned, Storage};
use nalgebra::{DefaultAllocator, Dim, OMatrix, U2, U3};
use std::cell::RefCell;
use std::panic::{catch_unwind, AssertUnwindSafe};

/// A model that reproduces every pixel, except that the one numbered `at` comes back
/// displaced by `d` in coordinate `axis`.
#[derive(Clone)]
struct Probe<R: Sc> {
    at: usize,
    axis: usize,
    d: R,
    scale: R,
    seen: RefCell<Vec<[R; 2]>>,
}
impl<R: Sc> std::fmt::Debug for Probe<R> {
    fn fmt(&self, _: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        Ok(())
    }
}
impl<R: Sc> IntrinsicParameters<R> for Probe<R> {
    type BundleType = cam_geom::ray_bundle_types::SharedDirectionRayBundle<R>;
    fn pixel_to_camera<IN, NPTS>(&self, pixels: &Pixels<R, NPTS, IN>) -> RayBundle<CameraFrame, Self::BundleType, R, NPTS, Owned<R, NPTS, U3>>
    where
        Self::BundleType: Bundle<R>,
        IN: Storage<R, NPTS, U2>,
        NPTS: Dim,
        DefaultAllocator: Allocator<nalgebra::U1, U2>,
        DefaultAllocator: Allocator<NPTS, U2>,
        DefaultAllocator: Allocator<NPTS, U3>,
    {
        let n = pixels.data.nrows();
        let mut data = OMatrix::<R, NPTS, U3>::zeros_generic(NPTS::from_usize(n), U3);
        for i in 0..n {
            let u = [pixels.data[(i, 0)], pixels.data[(i, 1)]];
            self.seen.borrow_mut().push(u);
            data[(i, 0)] = self.scale * u[0];
            data[(i, 1)] = self.scale * u[1];
        }
        RayBundle::new_shared_plusz_direction(data)
    }
    fn camera_to_pixel<IN, NPTS>(&self, camera: &Points<CameraFrame, R, NPTS, IN>) -> Pixels<R, NPTS, Owned<R, NPTS, U2>>
    where
        IN: Storage<R, NPTS, U3>,
        NPTS: Dim,
        DefaultAllocator: Allocator<NPTS, U2>,
    {
        let n = camera.data.nrows();
        let mut data = OMatrix::<R, NPTS, U2>::zeros_generic(NPTS::from_usize(n), U2);
        for i in 0..n {
            for j in 0..2 {
                data[(i, j)] = camera.data[(i, j)] / self.scale;
                if i == self.at && j == self.axis {
                    data[(i, j)] += self.d;
                }
            }
        }
        Pixels::new(data)
    }
}

/// The stated grid.
fn grid(w: usize, h: usize, step: usize, border: usize) -> Vec<[usize; 2]> {
    let mut v = vec![];
    for r in 0..h {
        for c in 0..w {
            let f = |x: usize, n: usize| x >= border && (x - border) % step == 0 && x + border < n;
            if f(r, h) && f(c, w) {
                v.push([c, r]);
            }
        }
    }
    v
}

const SHAPES: [[usize; 4]; 9] = [
    [3, 3, 1, 0], [4, 3, 1, 1], [3, 4, 2, 0], [5, 5, 2, 1], [5, 4, 3, 0], [7, 3, 2, 1], [3, 8, 3, 1], [2, 1, 1, 0], [6, 7, 2, 2],
];

fn probe<R: Sc>() {
    let s = SHAPES[choose(SHAPES.len(), "shape")];
    let n = grid(s[0], s[1], s[2], s[3]).len();
    probe_at::<R>(s, choose(n, "pixel"));
}
/// Large grids: corners, edges and some pixels in between.
const LARGE: [[usize; 4]; 9] = [
    [40, 30, 7, 3], [130, 2, 1, 0], [2, 130, 1, 0], [100, 80, 10, 5], [640, 480, 40, 40], [33, 17, 1, 1], [65, 65, 16, 0], [1001, 3, 10, 1],
    [641, 481, 80, 0],
];
fn probe_large<R: Sc>() {
    let s = LARGE[choose(LARGE.len(), "shape")];
    let g = grid(s[0], s[1], s[2], s[3]);
    let row = g.iter().take_while(|x| x[1] == g[0][1]).count();
    let n = g.len();
    let at = [0, n - 1, row - 1, n - row, n / 2, n / 3, (2 * n / 3).min(n - 1), (row / 2) % n, n - 1 - row / 2];
    probe_at::<R>(s, at[choose(at.len(), "pixel")]);
}
fn probe_at<R: Sc>([w, h, step, border]: [usize; 4], at: usize) {
    let g = grid(w, h, step, border);
    let (d, eps) = (R::var("d"), R::var("eps"));
    assume(GE, eps, R::k(0.0));
    let p = Probe { at, axis: choose(2, "axis"), d, scale: R::k(2.0), seen: Default::default() };
    let r = sut(|| catch_unwind(AssertUnwindSafe(|| roundtrip_intrinsics(&p, w, h, step, border, eps))));
    let seen = p.seen.borrow();
    let mut got: Vec<[i64; 2]> = vec![];
    for u in seen.iter() {
        if is_symbolic(u[0]) || is_symbolic(u[1]) {
            unsupported("grid of symbolic pixels");
        }
        got.push([(u[0].d() * 4.0) as i64, (u[1].d() * 4.0) as i64]);
    }
    got.sort();
    got.dedup();
    let mut want: Vec<[i64; 2]> = g.iter().map(|x| [4 * x[0] as i64, 4 * x[1] as i64]).collect();
    want.sort();
    ok(got == want, "the stated pixels are tested");
    if r.is_ok() {
        check_rel(LE, d, eps, "accepted: not above the tolerance");
        check_rel(GE, d, -eps, "accepted: not below the tolerance");
    } else {
        let a = if d < R::k(0.0) { -d } else { d };
        check_rel(GT, a, eps, "rejected: outside the tolerance");
    }
}

/// Bit-precise: a pixel that comes back as NaN, infinite or clearly displaced is rejected,
/// one displaced by clearly less than the tolerance is accepted.
fn ieee<R: Sc>() {
    let [w, h, step, border] = SHAPES[choose(4, "shape")];
    let g = grid(w, h, step, border);
    let (d, eps) = (R::var("d"), R::var("eps"));
    assume(GE, eps, R::k(0.0009765625));
    assume(LE, eps, R::k(1024.0));
    let p = Probe { at: choose(g.len(), "pixel"), axis: choose(2, "axis"), d, scale: R::k(2.0), seen: Default::default() };
    let r = sut(|| catch_unwind(AssertUnwindSafe(|| roundtrip_intrinsics(&p, w, h, step, border, eps))));
    let a = if d < R::k(0.0) { -d } else { d };
    if r.is_ok() {
        check_rel(LT, a, eps + eps, "accepted: finite and not above twice the tolerance");
    } else if a <= R::k(0.5) * eps {
        ok(false, "rejected: displaced by less than half the tolerance");
    }
}

/// Faithful models are accepted, whatever the tolerance.
fn faithful<R: Sc>() {
    let [w, h, step, border] = SHAPES[choose(SHAPES.len(), "shape")];
    let eps = R::var("eps");
    positive(eps);
    let s = R::var("scale");
    nonzero(s);
    let p = Probe { at: usize::MAX, axis: 0, d: R::k(0.0), scale: s, seen: Default::default() };
    let r = sut(|| catch_unwind(AssertUnwindSafe(|| roundtrip_intrinsics(&p, w, h, step, border, eps))));
    ok(r.is_ok(), "a faithful model is accepted");
}

/// The crate's own models are faithful.
fn own<R: Sc>() {
    let [w, h, step, border] = SHAPES[choose(4, "shape")];
    let eps = R::var("eps");
    positive(eps);
    let r = if choose(2, "model") == 0 {
        let k = crate::geom::Persp::<R>::new();
        nonzero(k.p[0]);
        nonzero(k.p[1]);
        sut(|| catch_unwind(AssertUnwindSafe(|| roundtrip_intrinsics(&k.i, w, h, step, border, eps))))
    } else {
        let i: IntrinsicParametersOrthographic<R> =
            OrthographicParams { sx: R::var("sx"), sy: R::var("sy"), cx: R::var("cx"), cy: R::var("cy") }.into();
        nonzero(R::var("sx"));
        nonzero(R::var("sy"));
        sut(|| catch_unwind(AssertUnwindSafe(|| roundtrip_intrinsics(&i, w, h, step, border, eps))))
    };
    ok(r.is_ok(), "a model of the crate is accepted");
}

pub fn table(t: &mut Vec<(&'static str, i32, fn())>) {
    t.push(("C20.probe.f64", 0, probe::<f64>));
    t.push(("C20.probe.f32", 0, probe::<f32>));
    t.push(("C20.probe_large.f64", 0, probe_large::<f64>));
    t.push(("C20.probe_large.f32", 0, probe_large::<f32>));
    t.push(("C20.ieee.f64", 1, ieee::<f64>));
    t.push(("C20.ieee.f32", 1, ieee::<f32>));
    t.push(("C20.faithful.f64", 0, faithful::<f64>));
    t.push(("C20.own.f64", 0, own::<f64>));
}

/// Ordinary use before the run under test: results must not depend on it.
pub fn warm_up() {
    fn all<R: Sc>() {
        let k = R::k;
        let e = ExtrinsicParameters::from_view(
            &nalgebra::Vector3::new(k(1.0), k(2.0), k(3.0)),
            &nalgebra::Vector3::new(k(0.5), k(-1.0), k(0.25)),
            &nalgebra::Unit::new_normalize(nalgebra::Vector3::new(k(0.0), k(0.5), k(1.0))),
        );
        let e = ExtrinsicParameters::from_pose(e.pose());
        let p: IntrinsicParametersPerspective<R> =
            PerspectiveParams { fx: k(3.0), fy: k(2.5), skew: k(0.5), cx: k(7.0), cy: k(-4.0) }.into();
        let o: IntrinsicParametersOrthographic<R> =
            OrthographicParams { sx: k(3.0), sy: k(2.5), cx: k(7.0), cy: k(-4.0) }.into();
        let pts = OMatrix::<R, nalgebra::Dyn, U3>::from_fn(3, |i, j| k((i * 3 + j) as f64 * 0.75 - 2.0));
        let pix = OMatrix::<R, nalgebra::Dyn, U2>::from_fn(3, |i, j| k((i * 2 + j) as f64 * 1.5 - 3.0));
        fn cam<R: Sc, I: IntrinsicParameters<R>>(c: &Camera<R, I>, pts: &OMatrix<R, nalgebra::Dyn, U3>, pix: &OMatrix<R, nalgebra::Dyn, U2>)
        where
            I::BundleType: Bundle<R>,
        {
            c.world_to_pixel(&Points::new(pts.clone_owned()));
            let w = c.pixel_to_world(&Pixels::new(pix.clone_owned()));
            w.point_on_ray();
            w.point_on_ray_at_distance(R::k(1.5));
            let one = c.pixel_to_world(&Pixels::new(nalgebra::SMatrix::<R, 1, 2>::new(R::k(0.5), R::k(2.0))));
            let two = c.pixel_to_world(&Pixels::new(nalgebra::SMatrix::<R, 1, 2>::new(R::k(1.5), R::k(9.0))));
            let _ = best_intersection_of_rays(&[one.to_single_ray(), two.to_single_ray()]);
            c.extrinsics().forward();
            c.extrinsics().up();
            c.extrinsics().right();
        }
        cam(&Camera::new(o, e.clone()), &pts, &pix);
        let c = Camera::new(p, e);
        cam(&c, &pts, &pix);
        let m = c.as_camera_matrix();
        let _ = Camera::<R, IntrinsicParametersPerspective<R>>::from_perspective_matrix(&m);
        linearize::JacobianPerspectiveCache::new(&c).linearize_at(&Points::new(nalgebra::SMatrix::<R, 1, 3>::new(k(5.0), k(1.0), k(2.0))));
    }
    all::<f64>();
    all::<f32>();
}
