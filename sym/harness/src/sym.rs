//! Rust face of the symbolic runtime (sym/rt/symrt.c) and of its concrete twin
//! (sym/rt/native.c).
use nalgebra::{Matrix1x3, Point3, Quaternion, RealField, SMatrix, UnitQuaternion, Vector3};

extern "C" {
    pub fn symrt_init(out: *const i8, dec: *const i8, fp: i32);
    pub fn symrt_finish();
    pub fn symrt_panic();
    fn symrt_is_native() -> i32;
    fn symrt_var64(p: *const u8, n: usize) -> f64;
    fn symrt_var32(p: *const u8, n: usize) -> f32;
    fn symrt_frac64(a: f64, b: f64) -> f64;
    fn symrt_frac32(a: f32, b: f32) -> f32;
    fn symrt_assume(rel: i32, a: f64, b: f64);
    fn symrt_unit(p: *const f64, n: usize);
    fn symrt_check(rel: i32, a: f64, b: f64, tol: f64, p: *const u8, n: usize);
    fn symrt_same(a: f64, b: f64, p: *const u8, n: usize);
    fn symrt_same32(a: f32, b: f32, p: *const u8, n: usize);
    fn symrt_bool(ok: i32, p: *const u8, n: usize);
    fn symrt_finite(a: f64, p: *const u8, n: usize);
    fn symrt_accurate(a: f64, scale: f64, p: *const u8, n: usize);
    fn symrt_mag64(a: f64) -> f64;
    fn symrt_mag32(a: f32) -> f32;
    fn symrt_note(p: *const u8, n: usize);
    fn symrt_sut(on: i32);
    pub fn symrt_concrete(on: i32);
    fn symrt_choose(arity: i32, p: *const u8, n: usize) -> i32;
    fn symrt_is_symbolic(a: f64) -> i32;
    fn symrt_same_node(a: f64, b: f64) -> i32;
    fn symrt_in_sut() -> i32;
    fn symrt_unsupported(p: *const u8, n: usize);
    fn symrt_stop() -> !;
}

pub const EQ: i32 = 0;
pub const NE: i32 = 1;
pub const LT: i32 = 2;
pub const LE: i32 = 3;
pub const GT: i32 = 4;
pub const GE: i32 = 5;

/// Scalar types the code under test is instantiated with.
pub trait Sc:
    RealField + Copy + serde::Serialize + serde::de::DeserializeOwned + std::fmt::Debug
{
    /// A fresh symbolic input (the same name always denotes the same input natively).
    fn var(name: &str) -> Self;
    fn k(x: f64) -> Self;
    /// The exact quotient of two constants.
    fn frac(a: f64, b: f64) -> Self;
    fn d(self) -> f64;
    /// The magnitude, for scales of `accurate` only.
    fn mag(self) -> Self;
    /// Same term, i.e. bit-identical for every rounding behaviour of the operations.
    fn same(a: Self, b: Self, label: &str);
}
impl Sc for f64 {
    fn mag(self) -> f64 {
        unsafe { symrt_mag64(self) }
    }
    fn var(n: &str) -> f64 {
        unsafe { symrt_var64(n.as_ptr(), n.len()) }
    }
    fn frac(a: f64, b: f64) -> f64 {
        unsafe { symrt_frac64(a, b) }
    }
    fn k(x: f64) -> f64 {
        x
    }
    fn d(self) -> f64 {
        self
    }
    fn same(a: f64, b: f64, l: &str) {
        unsafe { symrt_same(a, b, l.as_ptr(), l.len()) }
    }
}
impl Sc for f32 {
    fn mag(self) -> f32 {
        unsafe { symrt_mag32(self) }
    }
    fn var(n: &str) -> f32 {
        unsafe { symrt_var32(n.as_ptr(), n.len()) }
    }
    fn frac(a: f64, b: f64) -> f32 {
        unsafe { symrt_frac32(a as f32, b as f32) }
    }
    fn k(x: f64) -> f32 {
        x as f32
    }
    fn d(self) -> f64 {
        self as f64
    }
    fn same(a: f32, b: f32, l: &str) {
        unsafe { symrt_same32(a, b, l.as_ptr(), l.len()) }
    }
}

pub fn native() -> bool {
    unsafe { symrt_is_native() != 0 }
}
pub fn v3<R: Sc>(p: &str) -> [R; 3] {
    [R::var(&format!("{p}.x")), R::var(&format!("{p}.y")), R::var(&format!("{p}.z"))]
}
pub fn v2<R: Sc>(p: &str) -> [R; 2] {
    [R::var(&format!("{p}.u")), R::var(&format!("{p}.v"))]
}
pub fn assume<R: Sc>(rel: i32, a: R, b: R) {
    unsafe { symrt_assume(rel, a.d(), b.d()) }
}
pub fn nonzero<R: Sc>(a: R) {
    assume(NE, a, R::k(0.0))
}
pub fn positive<R: Sc>(a: R) {
    assume(GT, a, R::k(0.0))
}
/// Assume -m <= a <= m.
pub fn bounded<R: Sc>(a: R, m: f64) {
    assume(LE, a, R::k(m));
    assume(GE, a, R::k(-m));
}
static ANYTHING: std::sync::atomic::AtomicBool = std::sync::atomic::AtomicBool::new(false);
/// From here on rotations are given by any four numbers.
pub fn anything() {
    ANYTHING.store(true, std::sync::atomic::Ordering::Relaxed);
}
/// Assume sum of squares = 1.
pub fn unit<R: Sc>(v: &[R]) {
    if ANYTHING.load(std::sync::atomic::Ordering::Relaxed) {
        return;
    }
    let w: Vec<f64> = v.iter().map(|x| x.d()).collect();
    unsafe { symrt_unit(w.as_ptr(), w.len()) }
}
pub fn check<R: Sc>(a: R, b: R, label: &str) {
    unsafe { symrt_check(EQ, a.d(), b.d(), 0.0, label.as_ptr(), label.len()) }
}
pub fn check_rel<R: Sc>(rel: i32, a: R, b: R, label: &str) {
    unsafe { symrt_check(rel, a.d(), b.d(), 0.0, label.as_ptr(), label.len()) }
}
/// |a - b| <= tol
pub fn check_tol<R: Sc>(a: R, b: R, tol: f64, label: &str) {
    unsafe { symrt_check(EQ, a.d(), b.d(), tol, label.as_ptr(), label.len()) }
}
pub fn check3<R: Sc>(a: [R; 3], b: [R; 3], label: &str) {
    for j in 0..3 {
        check(a[j], b[j], &format!("{label}[{j}]"));
    }
}
pub fn check2<R: Sc>(a: [R; 2], b: [R; 2], label: &str) {
    for j in 0..2 {
        check(a[j], b[j], &format!("{label}[{j}]"));
    }
}
/// The accumulated rounding error of `a` is within the allowed multiple of roundoff times `scale`.
pub fn accurate<R: Sc>(a: R, scale: R, label: &str) {
    unsafe { symrt_accurate(a.d(), scale.d(), label.as_ptr(), label.len()) }
}
pub fn same<R: Sc>(a: R, b: R, label: &str) {
    R::same(a, b, label)
}
pub fn same3<R: Sc>(a: [R; 3], b: [R; 3], label: &str) {
    for j in 0..3 {
        same(a[j], b[j], &format!("{label}[{j}]"));
    }
}
pub fn ok(cond: bool, label: &str) {
    unsafe { symrt_bool(cond as i32, label.as_ptr(), label.len()) }
}
pub fn finite<R: Sc>(a: R, label: &str) {
    unsafe { symrt_finite(a.d(), label.as_ptr(), label.len()) }
}
pub fn note(s: &str) {
    unsafe { symrt_note(s.as_ptr(), s.len()) }
}
/// Nondeterministic choice out of 0..n (explored exhaustively).
pub fn choose(n: usize, label: &str) -> usize {
    unsafe { symrt_choose(n as i32, label.as_ptr(), label.len()) as usize }
}
pub fn is_symbolic<R: Sc>(a: R) -> bool {
    unsafe { symrt_is_symbolic(a.d()) != 0 }
}
pub fn same_node(a: f64, b: f64) -> bool {
    unsafe { symrt_same_node(a, b) != 0 }
}
/// Run harness code from within code under test.
pub fn harness<T>(f: impl FnOnce() -> T) -> T {
    let was = unsafe { symrt_in_sut() };
    unsafe { symrt_sut(0) };
    let r = f();
    unsafe { symrt_sut(was) };
    r
}
pub fn unsupported(s: &str) {
    unsafe { symrt_unsupported(s.as_ptr(), s.len()) }
}
pub fn stop() -> ! {
    unsafe { symrt_stop() }
}
/// Run code under test: divisions and square roots executed inside are recorded
/// as definedness obligations.
pub fn sut<T>(f: impl FnOnce() -> T) -> T {
    unsafe { symrt_sut(1) };
    let r = f();
    unsafe { symrt_sut(0) };
    r
}

// ---- reference geometry, written independently of the crate under test ----
pub type M3<R> = [[R; 3]; 3];
pub fn quat<R: Sc>(p: &str) -> [R; 4] {
    let q = [
        R::var(&format!("{p}.w")),
        R::var(&format!("{p}.i")),
        R::var(&format!("{p}.j")),
        R::var(&format!("{p}.k")),
    ];
    unit(&q);
    q
}
pub fn uq<R: Sc>(q: [R; 4]) -> UnitQuaternion<R> {
    UnitQuaternion::new_unchecked(Quaternion::new(q[0], q[1], q[2], q[3]))
}
/// Rotation matrix of a unit quaternion (textbook formula).
pub fn rotm<R: Sc>(q: [R; 4]) -> M3<R> {
    let [w, x, y, z] = q;
    let one = R::k(1.0);
    let two = R::k(2.0);
    [
        [one - two * (y * y + z * z), two * (x * y - w * z), two * (x * z + w * y)],
        [two * (x * y + w * z), one - two * (x * x + z * z), two * (y * z - w * x)],
        [two * (x * z - w * y), two * (y * z + w * x), one - two * (x * x + y * y)],
    ]
}
pub fn mv<R: Sc>(m: &M3<R>, v: [R; 3]) -> [R; 3] {
    [dot(m[0], v), dot(m[1], v), dot(m[2], v)]
}
/// transpose(m) * v
pub fn mtv<R: Sc>(m: &M3<R>, v: [R; 3]) -> [R; 3] {
    [
        dot([m[0][0], m[1][0], m[2][0]], v),
        dot([m[0][1], m[1][1], m[2][1]], v),
        dot([m[0][2], m[1][2], m[2][2]], v),
    ]
}
pub fn mm<R: Sc>(a: &M3<R>, b: &M3<R>) -> M3<R> {
    let mut o = [[R::k(0.0); 3]; 3];
    for i in 0..3 {
        for j in 0..3 {
            o[i][j] = dot(a[i], [b[0][j], b[1][j], b[2][j]]);
        }
    }
    o
}
pub fn dot<R: Sc>(a: [R; 3], b: [R; 3]) -> R {
    a[0] * b[0] + a[1] * b[1] + a[2] * b[2]
}
pub fn cross<R: Sc>(a: [R; 3], b: [R; 3]) -> [R; 3] {
    [
        a[1] * b[2] - a[2] * b[1],
        a[2] * b[0] - a[0] * b[2],
        a[0] * b[1] - a[1] * b[0],
    ]
}
pub fn add<R: Sc>(a: [R; 3], b: [R; 3]) -> [R; 3] {
    [a[0] + b[0], a[1] + b[1], a[2] + b[2]]
}
pub fn sub<R: Sc>(a: [R; 3], b: [R; 3]) -> [R; 3] {
    [a[0] - b[0], a[1] - b[1], a[2] - b[2]]
}
pub fn scale<R: Sc>(s: R, a: [R; 3]) -> [R; 3] {
    [s * a[0], s * a[1], s * a[2]]
}
pub fn row<R: Sc>(a: [R; 3]) -> Matrix1x3<R> {
    SMatrix::<R, 1, 3>::new(a[0], a[1], a[2])
}
pub fn vec<R: Sc>(a: [R; 3]) -> Vector3<R> {
    Vector3::new(a[0], a[1], a[2])
}
pub fn pt<R: Sc>(a: [R; 3]) -> Point3<R> {
    Point3::new(a[0], a[1], a[2])
}
pub fn arr<R: Sc>(a: &Vector3<R>) -> [R; 3] {
    [a[0], a[1], a[2]]
}
