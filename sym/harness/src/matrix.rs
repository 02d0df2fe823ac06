//! C13, C14, C16: cameras and intrinsics from matrices.
use crate::geom::*;
use crate::sym::*;
use cam_geom::{Camera, ExtrinsicParameters, IntrinsicParametersPerspective, PerspectiveParams};
use nalgebra::SMatrix;

type T = Vec<(&'static str, i32, fn())>;

pub fn table(t: &mut T) {
    macro_rules! gen {
        ($($n:literal),*) => {$(t.push((concat!("C13.general", $n, ".f64"), 6, general::<f64, $n>));)*};
    }
    gen!(0, 1, 2, 3);
    macro_rules! fam {
        ($($n:literal),*) => {$(
            t.push((concat!("C13.rotations", $n, ".f64"), 0, rotations::<f64, $n>));
            t.push((concat!("C13.rotations", $n, ".f32"), 4, rotations::<f32, $n>));
        )*};
    }
    fam!(0, 1, 2, 3);
    macro_rules! pl {
        ($($n:literal),*) => {$(t.push((concat!("C13.planar", $n, ".f64"), 0, planar::<f64, $n>));)*};
    }
    pl!(0, 1, 2, 3, 4, 5);
    macro_rules! re {
        ($($n:literal, $step:literal, $fl:literal);*) => {$(
            t.push((concat!("C14.recreate", $n, "_", $step, ".f64"), $fl, recreate::<f64, $n, $step>));
        )*};
    }
    re!(0, 5, 0; 1, 5, 0; 2, 5, 0; 3, 7, 0; 0, 1, 4; 1, 1, 4; 2, 1, 4; 3, 1, 4);
    t.push(("C16.accepted.f64", 1, c16_accepted::<f64>));
    t.push(("C16.accepted.f32", 1, c16_accepted::<f32>));
    t.push(("C16.exact.f64", 1, c16_exact::<f64>));
    t.push(("C16.exact.f32", 1, c16_exact::<f32>));
    t.push(("C16.rejected.f64", 1, c16_rejected::<f64>));
    t.push(("C16.rejected.f32", 1, c16_rejected::<f32>));
}

fn camera_matrix<R: Sc>(lam: R, k: &[R; 5], m: &M3<R>, c: [R; 3]) -> SMatrix<R, 3, 4> {
    let [fx, fy, s, cx, cy] = *k;
    let z = R::k(0.0);
    let km = [[fx, s, cx], [z, fy, cy], [z, z, R::k(1.0)]];
    let kr = mm(&km, m);
    let t = mv(&kr, c);
    SMatrix::<R, 3, 4>::from_fn(|i, j| if j < 3 { lam * kr[i][j] } else { -(lam * t[i]) })
}

/// m is d times the rotation
fn recovered<R: Sc>(p: &SMatrix<R, 3, 4>, k: &[R; 5], d: f64, m: &M3<R>, c: [R; 3]) {
    let r = sut(|| Camera::from_perspective_matrix(p));
    ok(r.is_ok(), "from_perspective_matrix succeeds");
    if let Ok(cam) = r {
        let cc = cam.extrinsics().camcenter();
        check3([cc[0], cc[1], cc[2]], c, "camcenter()");
        let i = cam.intrinsics();
        check(i.fx(), k[0], "fx");
        check(i.fy(), k[1], "fy");
        check(i.skew(), k[2], "skew");
        check(i.cx(), k[3], "cx");
        check(i.cy(), k[4], "cy");
        let g = cam.extrinsics().rotation();
        for a in 0..3 {
            for b in 0..3 {
                check(R::k(d) * g[(a, b)], m[a][b], &format!("rotation()[{a},{b}]"));
            }
        }
    }
}

fn scale_of<R: Sc>(neg: usize) -> R {
    let lam = R::var("lam");
    positive(lam);
    if neg == 1 {
        -lam
    } else {
        lam
    }
}

/// Any rotation, as the product of two reflections and signs: every orthogonal matrix is of this
/// form (Householder), with unit vectors n and (0, m) whose first components are at least
/// sqrt(1/2); the four choices of signs have determinant 1 in total.
fn reflections<R: Sc>(sg: usize) -> M3<R> {
    let (z, o, two) = (R::k(0.0), R::k(1.0), R::k(2.0));
    let half = R::k(0.5);
    let n = v3::<R>("n");
    unit(&n);
    let m = v2::<R>("m");
    unit(&m);
    positive(n[0]);
    positive(m[0]);
    assume(GE, n[0] * n[0], half);
    assume(GE, m[0] * m[0], half);
    let h = |v: [R; 3]| -> M3<R> {
        [0, 1, 2].map(|i| [0, 1, 2].map(|j| (if i == j { o } else { z }) - two * v[i] * v[j]))
    };
    let g = mm(&h([z, m[0], m[1]]), &h(n));
    let s = [[-1.0, 1.0, 1.0], [1.0, -1.0, 1.0], [1.0, 1.0, -1.0], [-1.0, -1.0, -1.0]][sg];
    // rows in reverse order
    [2, 1, 0].map(|i: usize| [0, 1, 2].map(|j| R::k(s[i]) * g[i][j]))
}
fn general<R: Sc, const N: usize>() {
    let k = Persp::<R>::new();
    positive(k.p[0]);
    positive(k.p[1]);
    let m = reflections::<R>(N);
    let c = v3::<R>("c");
    let lam = scale_of(choose(2, "sign"));
    recovered(&camera_matrix(lam, &k.p, &m, c), &k.p, 1.0, &m, c);
}

/// d * rotation, with integer entries
const ROT: [(f64, [[f64; 3]; 3]); 4] = [
    (1.0, [[1.0, 0.0, 0.0], [0.0, 1.0, 0.0], [0.0, 0.0, 1.0]]),
    (3.0, [[1.0, 2.0, 2.0], [2.0, 1.0, -2.0], [-2.0, 2.0, -1.0]]),
    (7.0, [[2.0, 3.0, 6.0], [3.0, -6.0, 2.0], [6.0, 2.0, -3.0]]),
    (9.0, [[1.0, 8.0, 4.0], [4.0, -4.0, 7.0], [8.0, 1.0, -4.0]]),
];
/// The rotations of the cube: signed permutations with determinant 1.
fn cube(n: usize) -> [[f64; 3]; 3] {
    let perm = [[0, 1, 2], [1, 2, 0], [2, 0, 1], [1, 0, 2], [0, 2, 1], [2, 1, 0]][n / 4];
    let sg = [[1.0, 1.0], [1.0, -1.0], [-1.0, 1.0], [-1.0, -1.0]][n % 4];
    let par = if n / 4 < 3 { 1.0 } else { -1.0 };
    let s = [sg[0], sg[1], sg[0] * sg[1] * par];
    let mut m = [[0.0; 3]; 3];
    for i in 0..3 {
        m[i][perm[i]] = s[i];
    }
    m
}
fn det(m: &[[f64; 3]; 3]) -> f64 {
    m[0][0] * (m[1][1] * m[2][2] - m[1][2] * m[2][1]) - m[0][1] * (m[1][0] * m[2][2] - m[1][2] * m[2][0])
        + m[0][2] * (m[1][0] * m[2][1] - m[1][1] * m[2][0])
}
/// d and d times the rotation: one of the matrices followed by a turn of the cube
fn rotation<R: Sc>(kind: usize, turn: usize) -> (f64, M3<R>) {
    let (d, mut n) = ROT[kind];
    if det(&n) < 0.0 {
        for j in 0..3 {
            n[2][j] = -n[2][j];
        }
    }
    let g = cube(turn);
    assert!(det(&n) == d * d * d && det(&g) == 1.0);
    let f = |a: &[[f64; 3]; 3]| -> M3<R> { [0, 1, 2].map(|i| [0, 1, 2].map(|j| R::k(a[i][j]))) };
    (d, mm(&f(&g), &f(&n)))
}
fn rotations<R: Sc, const N: usize>() {
    let (d, nn) = rotation::<R>(N, choose(24, "turn"));
    let k = Persp::<R>::new();
    positive(k.p[0]);
    positive(k.p[1]);
    let c = v3::<R>("c");
    let lam = scale_of(choose(2, "sign"));
    let p = camera_matrix(lam, &k.p, &nn, c);
    recovered(&p, &k.p, d, &nn, c);
}

fn planar<R: Sc, const N: usize>() {
    // rotation about an axis by any angle
    let (a, b) = (R::var("a"), R::var("b"));
    unit(&[a, b]);
    let (z, o) = (R::k(0.0), R::k(1.0));
    let t = [[a, -b, z], [b, a, z], [z, z, o]];
    let g = cube(4 * N + choose(4, "turn"));
    let f: M3<R> = [0, 1, 2].map(|i| [0, 1, 2].map(|j| R::k(g[i][j])));
    let m = mm(&f, &t);
    let k = Persp::<R>::new();
    positive(k.p[0]);
    positive(k.p[1]);
    let c = v3::<R>("c");
    let lam = scale_of(choose(2, "sign"));
    recovered(&camera_matrix(lam, &k.p, &m, c), &k.p, 1.0, &m, c);
}

/// The entries of a normalised matrix that the model fixes, with their values.
const FIXED: [(usize, usize, f64); 7] =
    [(0, 3, 0.0), (1, 0, 0.0), (1, 3, 0.0), (2, 0, 0.0), (2, 1, 0.0), (2, 2, 1.0), (2, 3, 0.0)];
fn entries<R: Sc>() -> SMatrix<R, 3, 4> {
    SMatrix::<R, 3, 4>::from_fn(|i, j| R::var(&format!("p{i}{j}")))
}
fn params_are<R: Sc>(i: &IntrinsicParametersPerspective<R>, p: &SMatrix<R, 3, 4>) {
    same(i.fx(), p[(0, 0)], "fx");
    same(i.fy(), p[(1, 1)], "fy");
    same(i.skew(), p[(0, 1)], "skew");
    same(i.cx(), p[(0, 2)], "cx");
    same(i.cy(), p[(1, 2)], "cy");
}
/// rounding: what counts as equal up to rounding, and what clearly does not
fn close<R: Sc>() -> (f64, f64) {
    if R::default_epsilon().d() > 1e-10 {
        (1.1920929e-7 / 4.0, 1e-5)
    } else {
        (f64::EPSILON / 4.0, 1e-12)
    }
}

/// Whatever is accepted has the fixed entries, and the parameters are the entries.
fn c16_accepted<R: Sc>() {
    let p = entries::<R>();
    let r = sut(|| IntrinsicParametersPerspective::from_normalized_3x4_matrix(p));
    if let Ok(i) = r {
        let t = close::<R>().1;
        for (a, b, v) in FIXED {
            check_rel(LE, p[(a, b)], R::k(v + t), &format!("accepted entry {a},{b} is not above {v}"));
            check_rel(GE, p[(a, b)], R::k(v - t), &format!("accepted entry {a},{b} is not below {v}"));
        }
        params_are(&i, &p);
    }
}
/// A matrix with the fixed entries (up to rounding) is accepted whatever the others are.
fn c16_exact<R: Sc>() {
    let p = entries::<R>();
    let t = close::<R>().0;
    for (a, b, v) in FIXED {
        assume(LE, p[(a, b)], R::k(v + t));
        assume(GE, p[(a, b)], R::k(v - t));
    }
    let r = sut(|| IntrinsicParametersPerspective::from_normalized_3x4_matrix(p));
    ok(r.is_ok(), "a normalised matrix is accepted");
    if let Ok(i) = r {
        params_are(&i, &p);
    }
}
/// One fixed entry that is clearly wrong, infinite or NaN.
fn c16_rejected<R: Sc>() {
    let p = entries::<R>();
    let (a, b, v) = FIXED[choose(7, "entry")];
    let t = close::<R>().1;
    match choose(3, "how") {
        0 => assume(GT, p[(a, b)], R::k(v + t)),
        1 => assume(LT, p[(a, b)], R::k(v - t)),
        _ => assume(NE, p[(a, b)], p[(a, b)]),
    }
    let r = sut(|| IntrinsicParametersPerspective::from_normalized_3x4_matrix(p));
    ok(r.is_err(), &format!("a wrong entry {a},{b} is rejected"));
}

/// The rotations of `rotation` as exact unit quaternions: integer quaternions and
/// the square roots of their norms.
const QUAT: [[f64; 4]; 4] = [[1.0, 0.0, 0.0, 0.0], [0.0, 2.0, 2.0, 1.0], [2.0, 4.0, 5.0, 6.0], [8.0, -4.0, 0.0, -1.0]];
const HALF: [[f64; 4]; 12] = [
    [1.0, 0.0, 0.0, 0.0], [0.0, 1.0, 0.0, 0.0], [0.0, 0.0, 1.0, 0.0], [0.0, 0.0, 0.0, 1.0],
    [0.5, 0.5, 0.5, 0.5], [0.5, -0.5, 0.5, 0.5], [0.5, 0.5, -0.5, 0.5], [0.5, 0.5, 0.5, -0.5],
    [-0.5, 0.5, 0.5, 0.5], [0.5, -0.5, -0.5, 0.5], [0.5, 0.5, -0.5, -0.5], [0.5, -0.5, 0.5, -0.5],
];

/// A camera, its matrix, and the camera made from that matrix.
fn recreate<R: Sc, const N: usize, const STEP: usize>() {
    let (sx, sy) = [(1.0, 1.0), (-1.0, 1.0), (1.0, -1.0), (-1.0, -1.0)][choose(4, "signs")];
    let turn = STEP * choose((12 + STEP - 1) / STEP, "turn");
    let a = QUAT[N];
    let b = HALF[turn];
    let n = [1.0, 3.0, 9.0, 9.0][N];
    // Hamilton product, with small integers: exact
    let q = [
        a[0] * b[0] - a[1] * b[1] - a[2] * b[2] - a[3] * b[3],
        a[0] * b[1] + a[1] * b[0] + a[2] * b[3] - a[3] * b[2],
        a[0] * b[2] - a[1] * b[3] + a[2] * b[0] + a[3] * b[1],
        a[0] * b[3] + a[1] * b[2] - a[2] * b[1] + a[3] * b[0],
    ];
    assert!(q.iter().map(|x| x * x).sum::<f64>() == n * n);
    let qq = q.map(|x| R::frac(x, n));
    let (fx, fy) = (R::var("fx"), R::var("fy"));
    positive(fx);
    positive(fy);
    let k = [fx * R::k(sx), fy * R::k(sy), R::var("skew"), R::var("cx"), R::var("cy")];
    let c = v3::<R>("c");
    let i: IntrinsicParametersPerspective<R> =
        PerspectiveParams { fx: k[0], fy: k[1], skew: k[2], cx: k[3], cy: k[4] }.into();
    let cam = Camera::new(i, ExtrinsicParameters::from_rotation_and_camcenter(uq(qq), pt(c)));
    let p = sut(|| cam.as_camera_matrix());
    let r = sut(|| Camera::from_perspective_matrix(&p));
    ok(r.is_ok(), "the matrix of a camera makes a camera");
    if let Ok(cam2) = r {
        let cc = cam2.extrinsics().camcenter();
        check3([cc[0], cc[1], cc[2]], c, "camcenter()");
        if sx > 0.0 && sy > 0.0 {
            let i = cam2.intrinsics();
            check(i.fx(), k[0], "fx");
            check(i.fy(), k[1], "fy");
            check(i.skew(), k[2], "skew");
            check(i.cx(), k[3], "cx");
            check(i.cy(), k[4], "cy");
        }
        // the same pixels
        let x = v3::<R>("x");
        let y = mv(&rotm(qq), sub(x, c));
        nonzero(y[2]);
        let u = cam.world_to_pixel(&wp(x));
        let v = cam2.world_to_pixel(&wp(x));
        check2([v.data[(0, 0)], v.data[(0, 1)]], [u.data[(0, 0)], u.data[(0, 1)]], "pixel");
    }
}
