//! C18: the best intersection of rays.
use crate::sym::*;
use nalgebra::{linalg::SVD, Matrix3, Vector3, U1, U3};
use cam_geom::*;

type T = Vec<(&'static str, i32, fn())>;

pub fn table(t: &mut T) {
    t.push(("C18.meeting.f64", 0, meeting::<f64>));
    t.push(("C18.meeting.f32", 0, meeting::<f32>));
    t.push(("C18.leastsquares.f64", 0, least_squares::<f64>));
    t.push(("C18.leastsquares.f32", 0, least_squares::<f32>));
    t.push(("C18.meeting_many.f64", 0, meeting_many::<f64>));
    t.push(("C18.meeting_many.f32", 0, meeting_many::<f32>));
    t.push(("C18.leastsquares_many.f64", 0, least_squares_many::<f64>));
    t.push(("C18.leastsquares_many.f32", 0, least_squares_many::<f32>));
    t.push(("C18.anydirection2.f64", 2, any_direction::<f64, 2>));
    t.push(("C18.anydirection2.f32", 2, any_direction::<f32, 2>));
    t.push(("C18.anydirection3.f64", 2, any_direction::<f64, 3>));
    t.push(("C18.anydirection4.f64", 2, any_direction::<f64, 4>));
    t.push(("C18.anydirection5.f64", 2, any_direction::<f64, 5>));
    t.push(("C18.anydirection6.f64", 6, any_direction::<f64, 6>));
    t.push(("C18.anydirection7.f64", 6, any_direction::<f64, 7>));
    t.push(("C18.triangulate0.f64", 2, triangulate::<f64, 0>));
    t.push(("C18.triangulate1.f64", 2, triangulate::<f64, 1>));
    t.push(("C18.triangulate2.f64", 2, triangulate::<f64, 2>));
    t.push(("C18.triangulate3.f64", 2, triangulate::<f64, 3>));
    t.push(("C18.triangulate4.f64", 2, triangulate::<f64, 4>));
    t.push(("C18.triangulate5.f64", 2, triangulate::<f64, 5>));
    t.push(("C18.triangulate6.f64", 2, triangulate::<f64, 6>));
    t.push(("C18.few.f64", 0, few::<f64>));
    t.push(("C18.few.f32", 0, few::<f32>));
}

type D = [f64; 3];
const SETS: [&[D]; 22] = [
    &[[1.0, 0.0, 0.0], [0.0, 1.0, 0.0]],
    &[[0.0, 0.0, 1.0], [1.0, 0.0, 0.0]],
    &[[1.0, 1.0, 0.0], [0.0, 1.0, 1.0]],
    &[[1.0, 2.0, 2.0], [2.0, -1.0, 0.5]],
    &[[0.0, 0.0, 1.0], [0.125, 0.0, 1.0]],
    &[[3.0, -2.0, 7.0], [-1.0, 4.0, 0.25]],
    &[[1.0, 0.0, 0.0], [0.0, 1.0, 0.0], [0.0, 0.0, 1.0]],
    // two parallel, two antiparallel
    &[[1.0, 1.0, 1.0], [2.0, 2.0, 2.0], [0.0, 1.0, -2.0]],
    &[[1.0, 1.0, 1.0], [-1.0, -1.0, -1.0], [0.0, 1.0, -2.0]],
    // coplanar
    &[[1.0, 0.0, 1.0], [0.0, 1.0, 1.0], [1.0, 1.0, 2.0]],
    &[[0.25, 0.0, 1.0], [-0.25, 0.0, 1.0], [0.0, 0.25, 1.0], [0.0, -0.25, 1.0]],
    &[[1.0, 2.0, 3.0], [3.0, 1.0, -2.0], [0.0, -1.0, 1.0], [5.0, 0.0, 1.0]],
    &[[1.0, 0.0, 0.0], [1.0, 1.0, 0.0], [0.0, 1.0, 0.0], [-1.0, 1.0, 0.0], [-1.0, 2.0, 0.0]],
    &[[1.0, 2.0, 3.0], [3.0, 1.0, -2.0], [0.0, -1.0, 1.0], [5.0, 0.0, 1.0], [1.0, -1.0, -1.0], [2.0, 0.5, 0.0]],
    &[
        [0.5, 0.0, 1.0], [0.0, 0.5, 1.0], [-0.5, 0.0, 1.0], [0.0, -0.5, 1.0], [0.5, 0.5, 1.0], [-0.5, 0.5, 1.0],
        [-0.5, -0.5, 1.0],
    ],
    &[
        [1.0, 2.0, 3.0], [3.0, 1.0, -2.0], [0.0, -1.0, 1.0], [5.0, 0.0, 1.0], [1.0, -1.0, -1.0], [2.0, 0.5, 0.0],
        [-4.0, 1.0, 1.0], [1.0, 7.0, 0.0], [0.0, 0.0, -1.0],
    ],
    // narrow
    &[[0.0, 0.0, 1.0], [0.015625, 0.0, 1.0]],
    &[[1.0, 1.0, 1.0], [1.0, 1.03125, 1.0]],
    &[[2.0, -1.0, 0.5], [2.0, -1.0, 0.4921875]],
    &[[0.0, 1.0, 0.0], [0.0, 1.0, 0.0078125]],
    &[[1.0, 2.0, 3.0], [1.0, 2.03125, 3.0], [1.03125, 2.0, 3.0]],
    &[[0.015625, 0.0, 1.0], [-0.015625, 0.0, 1.0], [0.0, 0.015625, 1.0], [0.0, -0.015625, 1.0]],
];
/// Factors applied to the directions: row k is used for ray i as `LEN[k][i % 3]`.
const LEN: [[f64; 3]; 6] = [
    [1.0, 1.0, 1.0],
    [-1.0, -1.0, -1.0],
    [1.0, -3.0, 0.5],
    [-256.0, 0.015625, 7.0],
    [1e-3, 1e3, -1.0],
    [0.3, 0.7, 1e2],
];
const RANGE: f64 = 10.0;

/// What rounding may do: in proportion to the condition of the system.
fn tol<R: Sc>(u: &[D]) -> f64 {
    let mut m = Matrix3::<f64>::zeros();
    for u in u {
        let v = Vector3::from(*u);
        m += Matrix3::identity() - v * v.transpose();
    }
    let low = m.symmetric_eigenvalues().min();
    // f32 directions are rounded to 24 bits
    (if std::mem::size_of::<R>() == 4 { 4e-3 } else { 2e-4 }) * (0.0078 / low).max(1.0)
}
struct Dirs<R: Sc> {
    /// exactly as given to the crate
    d: Vec<[R; 3]>,
    /// unit vectors in double precision
    u: Vec<D>,
}
/// Directions all over the sphere.
fn many(n: usize) -> Vec<D> {
    (0..n)
        .map(|i| {
            let k = i as f64;
            [((7.0 * k) % 11.0) - 5.0, ((3.0 * k) % 13.0) - 6.0, ((5.0 * k) % 7.0) - 3.25]
        })
        .collect()
}
fn dirs<R: Sc>(large: &[usize]) -> Dirs<R> {
    let (s, len, rev) = if large.is_empty() {
        let s = SETS[choose(SETS.len(), "directions")].to_vec();
        (s, LEN[choose(LEN.len(), "lengths")], choose(2, "order"))
    } else {
        (many(large[choose(large.len(), "number of rays")]), LEN[2], 0)
    };
    let mut d: Vec<[R; 3]> =
        s.iter().enumerate().map(|(i, v)| [0, 1, 2].map(|j| R::k(v[j] * len[i % 3]))).collect();
    if rev == 1 {
        d.reverse();
    }
    let u = d
        .iter()
        .map(|v| {
            let v = [0, 1, 2].map(|j| v[j].d());
            let n = (v[0] * v[0] + v[1] * v[1] + v[2] * v[2]).sqrt();
            [v[0] / n, v[1] / n, v[2] / n]
        })
        .collect();
    Dirs { d, u }
}
fn solve<R: Sc>(d: &[[R; 3]], p: &[[R; 3]]) -> Option<[R; 3]> {
    let rays: Vec<Ray<WorldFrame, R>> = d.iter().zip(p).map(|(d, p)| Ray::new(row(*p), row(*d))).collect();
    let r = sut(|| best_intersection_of_rays(&rays));
    ok(r.is_ok(), "rays that are not all parallel have a best intersection");
    r.ok().map(|p| [p.data[(0, 0)], p.data[(0, 1)], p.data[(0, 2)]])
}
/// (I - u u^T) v
fn off<R: Sc>(u: &D, v: [R; 3]) -> [R; 3] {
    let w = [0, 1, 2].map(|j| R::k(u[j]));
    let l = dot(w, v);
    [0, 1, 2].map(|j| v[j] - w[j] * l)
}

/// Rays through a common point, starting anywhere on their lines.
fn meeting<R: Sc>() {
    meeting_at(dirs::<R>(&[]))
}
const LARGE: [usize; 14] = [10, 11, 12, 13, 15, 16, 17, 20, 31, 33, 50, 65, 100, 129];
fn meeting_many<R: Sc>() {
    meeting_at(dirs::<R>(&LARGE))
}
fn meeting_at<R: Sc>(ds: Dirs<R>) {
    let x = v3::<R>("x");
    for j in 0..3 {
        bounded(x[j], RANGE);
    }
    let p: Vec<[R; 3]> = ds
        .u
        .iter()
        .enumerate()
        .map(|(i, u)| {
            let t = R::var(&format!("t{i}"));
            bounded(t, RANGE);
            [0, 1, 2].map(|j| x[j] + t * R::k(u[j]))
        })
        .collect();
    if let Some(r) = solve(&ds.d, &p) {
        for j in 0..3 {
            check_tol(r[j], x[j], tol::<R>(&ds.u), "rays through a common point meet there");
        }
    }
}

/// Rays anywhere: the gradient of the sum of squared distances is zero.
fn least_squares<R: Sc>() {
    least_squares_at(dirs::<R>(&[]))
}
fn least_squares_many<R: Sc>() {
    least_squares_at(dirs::<R>(&[10, 13, 17, 33]))
}
fn least_squares_at<R: Sc>(ds: Dirs<R>) {
    let p: Vec<[R; 3]> = (0..ds.u.len()).map(|i| v3::<R>(&format!("p{i}"))).collect();
    for q in &p {
        for j in 0..3 {
            bounded(q[j], RANGE);
        }
    }
    if let Some(r) = solve(&ds.d, &p) {
        let mut g = [R::k(0.0); 3];
        for (u, q) in ds.u.iter().zip(&p) {
            g = add(g, off(u, sub(r, *q)));
        }
        for j in 0..3 {
            check_tol(g[j], R::k(0.0), tol::<R>(&ds.u), "the result minimises the sum of squared distances");
        }
    }
}

fn few<R: Sc>() {
    let n = choose(2, "rays");
    let rays: Vec<Ray<WorldFrame, R>> =
        (0..n).map(|i| Ray::new(row(v3(&format!("p{i}"))), row(v3(&format!("d{i}"))))).collect();
    ok(sut(|| best_intersection_of_rays(&rays)).is_err(), "fewer than two rays are an error");
}

// ---- every direction: nalgebra's singular value decomposition is replaced by its contract ----
// see CONTRACTS in sym/py/build.py. What the callers may rely on for a nonsingular matrix M is
// that V S^-1 U^T is the inverse of M (pseudo_inverse and solve compute that product from the
// parts); the parts given here are S = 1, V = 1 and U = the inverse of M transposed.
#[no_mangle]
unsafe extern "C" fn symh_svd3(out: *mut Option<SVD<f64, U3, U3>>, m: *const Matrix3<f64>) -> i32 {
    let m = &*m;
    if !m.iter().any(|x| is_symbolic(*x)) {
        return 0;
    }
    harness(|| {
        note("contract of the singular value decomposition applied");
        let r: M3<f64> = std::array::from_fn(|i| std::array::from_fn(|j| m[(i, j)]));
        let c = [cross(r[1], r[2]), cross(r[2], r[0]), cross(r[0], r[1])];
        let det = dot(r[0], c[0]);
        nonzero(det);
        out.write(Some(SVD {
            u: Some(Matrix3::from_fn(|i, j| c[i][j] / det)),
            v_t: Some(Matrix3::identity()),
            singular_values: Vector3::repeat(1.0),
        }));
    });
    1
}
#[used]
static KEEP: unsafe extern "C" fn(*mut Option<SVD<f64, U3, U3>>, *const Matrix3<f64>) -> i32 = symh_svd3;

/// Any directions of any length: the gradient of the sum of squared distances is zero.
fn any_direction<R: Sc, const N: usize>() {
    note("contract of the singular value decomposition");
    let u: Vec<[R; 3]> = (0..N)
        .map(|i| {
            let u = v3::<R>(&format!("u{i}"));
            unit(&u);
            u
        })
        .collect();
    let c = cross(u[0], u[1]);
    nonzero(dot(c, c));
    let d: Vec<[R; 3]> = u
        .iter()
        .enumerate()
        .map(|(i, u)| {
            let s = R::var(&format!("s{i}"));
            nonzero(s);
            scale(s, *u)
        })
        .collect();
    let p: Vec<[R; 3]> = (0..N).map(|i| v3::<R>(&format!("p{i}"))).collect();
    if let Some(r) = solve(&d, &p) {
        let mut g = [R::k(0.0); 3];
        for (u, q) in u.iter().zip(&p) {
            let v = sub(r, *q);
            let l = dot(*u, v);
            g = add(g, sub(v, scale(l, *u)));
        }
        for j in 0..3 {
            check(g[j], R::k(0.0), "the result minimises the sum of squared distances");
        }
    }
}

/// Triangulation: the rays of the pixels at which two cameras see a point meet in that point.
fn triangulate<R: Sc, const N: usize>() {
    note("contract of the singular value decomposition");
    let x = v3::<R>("x");
    let q = [[1.0, 0.0, 0.0, 0.0], [0.5, 0.5, -0.5, 0.5], [0.0, 0.6, 0.0, 0.8]];
    let ext = |i: usize, c: [R; 3]| {
        let q = q[i].map(|v| R::k(v));
        let e = sut(|| ExtrinsicParameters::from_rotation_and_camcenter(uq(q), pt(c)));
        let y = mv(&rotm(q), sub(x, c));
        (e, y)
    };
    let w = Points::<WorldFrame, R, U1, _>::new(row(x));
    let persp = |i: usize, c: [R; 3]| {
        let (e, y) = ext(i, c);
        nonzero(y[2]);
        let k: IntrinsicParametersPerspective<R> = PerspectiveParams {
            fx: R::k(100.0), fy: R::k(-128.0), skew: R::k(0.5), cx: R::k(320.0), cy: R::k(240.0),
        }
        .into();
        let cam = Camera::new(k, e);
        (sut(|| cam.pixel_to_world(&cam.world_to_pixel(&w)).to_single_ray()), sub(x, c))
    };
    let ortho = |i: usize, c: [R; 3]| {
        let (e, _) = ext(i, c);
        let k: IntrinsicParametersOrthographic<R> =
            OrthographicParams { sx: R::k(4.0), sy: R::k(-0.5), cx: R::k(320.0), cy: R::k(240.0) }.into();
        let cam = Camera::new(k, e);
        let z = [R::k(0.0), R::k(0.0), R::k(1.0)];
        (sut(|| cam.pixel_to_world(&cam.world_to_pixel(&w)).to_single_ray()), mtv(&rotm(q[i].map(|v| R::k(v))), z))
    };
    let (c0, c1) = ([R::k(0.0); 3], v3::<R>("c1"));
    let (a, b) = match N {
        0 => (persp(0, c0), persp(0, [c1[0], c0[1], c0[2]])),
        1 => (persp(0, c0), ortho(0, c1)),
        2 => (persp(0, c0), ortho(1, c1)),
        3 => (persp(0, c0), persp(1, [c1[0], c0[1], c0[2]])),
        4 => (persp(0, c0), persp(1, c1)),
        5 => (persp(1, c0), persp(0, c1)),
        _ => (persp(1, v3::<R>("c0")), ortho(0, c1)),
    };
    let n = cross(a.1, b.1);
    nonzero(dot(n, n));
    let r = sut(|| best_intersection_of_rays(&[a.0, b.0]));
    ok(r.is_ok(), "rays that are not parallel have a best intersection");
    if let Ok(p) = r {
        for j in 0..3 {
            check(p.data[(0, j)], x[j], "two views of a point give the point");
        }
    }
}
