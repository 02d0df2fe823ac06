//! Obligations on extrinsics, intrinsics, cameras, rays and linearisation.
use crate::sym::*;
use cam_geom::{
    Bundle, Camera, CameraFrame, ExtrinsicParameters, IntrinsicParameters,
    IntrinsicParametersOrthographic, IntrinsicParametersPerspective, OrthographicParams,
    PerspectiveParams, Pixels, Points, RayBundle, WorldFrame,
};
use nalgebra::{Isometry3, SMatrix, Translation3, Unit, Vector3};

type T = Vec<(&'static str, i32, fn())>;

macro_rules! ob {
    ($t:expr, $name:literal, $f:ident) => {
        $t.push((concat!($name, ".f64"), 0, $f::<f64>));
        $t.push((concat!($name, ".f32"), 0, $f::<f32>));
    };
}

pub fn table(t: &mut T) {
    ob!(t, "C01.roundtrip", c01_roundtrip);
    ob!(t, "C02.rigid", c02_rigid);
    ob!(t, "C02.representations", c02_repr);
    ob!(t, "C03.from_pose", c03_from_pose);
    ob!(t, "C03.pose_roundtrip", c03_pose_roundtrip);
    ob!(t, "C04.axes", c04_axes);
    ob!(t, "C04.position_independent", c04_posindep);
    ob!(t, "C05.from_view", c05_from_view);
    ob!(t, "C06.project", c06_project);
    ob!(t, "C06.scale_invariant", c06_scale);
    ob!(t, "C07.pixel_ray", c07_pixel_ray);
    ob!(t, "C07.point_on_its_ray", c07_point_ray);
    ob!(t, "C08.ortho", c08_ortho);
    ob!(t, "C09.perspective", c09_persp);
    ob!(t, "C09.perspective_reproject", c09_persp_rep);
    ob!(t, "C09.orthographic", c09_ortho);
    ob!(t, "C10.shared_origin", c10_origin);
    ob!(t, "C10.shared_direction", c10_direction);
    ob!(t, "C11.shared_origin", c11_origin);
    ob!(t, "C11.shared_direction", c11_direction);
    ob!(t, "C11.directions_position_independent", c11_posindep);
    ob!(t, "C09.directions_position_independent", c09_posindep);
    ob!(t, "C14.as_matrix", c14_as_matrix);
    ob!(t, "C15.jacobian", c15_jacobian);
}

pub struct Ext<R: Sc> {
    pub q: [R; 4],
    pub c: [R; 3],
    pub m: M3<R>,
    pub e: ExtrinsicParameters<R>,
}
impl<R: Sc> Ext<R> {
    pub fn new(p: &str) -> Self {
        let q = quat::<R>(&format!("{p}q"));
        let c = v3::<R>(&format!("{p}c"));
        Self::of(q, c)
    }
    pub fn of(q: [R; 4], c: [R; 3]) -> Self {
        let e = sut(|| ExtrinsicParameters::from_rotation_and_camcenter(uq(q), pt(c)));
        Ext { q, c, m: rotm(q), e }
    }
    /// reference world -> camera
    pub fn w2c(&self, x: [R; 3]) -> [R; 3] {
        mv(&self.m, sub(x, self.c))
    }
    /// reference camera -> world
    pub fn c2w(&self, y: [R; 3]) -> [R; 3] {
        add(mtv(&self.m, y), self.c)
    }
}
pub fn wp<R: Sc>(x: [R; 3]) -> Points<WorldFrame, R, nalgebra::U1, nalgebra::ArrayStorage<R, 1, 3>> {
    Points::new(row(x))
}
pub fn cp<R: Sc>(x: [R; 3]) -> Points<CameraFrame, R, nalgebra::U1, nalgebra::ArrayStorage<R, 1, 3>> {
    Points::new(row(x))
}
pub fn px<R: Sc>(x: [R; 2]) -> Pixels<R, nalgebra::U1, nalgebra::ArrayStorage<R, 1, 2>> {
    Pixels::new(SMatrix::<R, 1, 2>::new(x[0], x[1]))
}
pub fn r3<R: Sc>(m: &SMatrix<R, 1, 3>) -> [R; 3] {
    [m[(0, 0)], m[(0, 1)], m[(0, 2)]]
}
pub fn r2<R: Sc>(m: &SMatrix<R, 1, 2>) -> [R; 2] {
    [m[(0, 0)], m[(0, 1)]]
}

pub struct Persp<R: Sc> {
    pub p: [R; 5],
    pub i: IntrinsicParametersPerspective<R>,
}
impl<R: Sc> Persp<R> {
    pub fn new() -> Self {
        Self::of([R::var("fx"), R::var("fy"), R::var("skew"), R::var("cx"), R::var("cy")])
    }
    pub fn of(p: [R; 5]) -> Self {
        let i = sut(|| {
            PerspectiveParams { fx: p[0], fy: p[1], skew: p[2], cx: p[3], cy: p[4] }.into()
        });
        Persp { p, i }
    }
    pub fn regular(self) -> Self {
        nonzero(self.p[0]);
        nonzero(self.p[1]);
        self
    }
    /// K * y (homogeneous pixel)
    pub fn k(&self, y: [R; 3]) -> [R; 3] {
        let [fx, fy, s, cx, cy] = self.p;
        [fx * y[0] + s * y[1] + cx * y[2], fy * y[1] + cy * y[2], y[2]]
    }
}
pub struct Ortho<R: Sc> {
    pub p: [R; 4],
    pub i: IntrinsicParametersOrthographic<R>,
}
impl<R: Sc> Ortho<R> {
    pub fn new() -> Self {
        let p = [R::var("sx"), R::var("sy"), R::var("cx"), R::var("cy")];
        nonzero(p[0]);
        nonzero(p[1]);
        let i = sut(|| OrthographicParams { sx: p[0], sy: p[1], cx: p[2], cy: p[3] }.into());
        Ortho { p, i }
    }
}

fn c01_roundtrip<R: Sc>() {
    let e = Ext::<R>::new("");
    let x = v3::<R>("x");
    let y = sut(|| e.e.world_to_camera(&wp(x)));
    let z = sut(|| e.e.camera_to_world(&y));
    check3(r3(&z.data), x, "camera_to_world(world_to_camera(x))");
    let y = sut(|| e.e.camera_to_world(&cp(x)));
    let z = sut(|| e.e.world_to_camera(&y));
    check3(r3(&z.data), x, "world_to_camera(camera_to_world(x))");
}

fn c02_rigid<R: Sc>() {
    let e = Ext::<R>::new("");
    let x = v3::<R>("x");
    let y = r3(&sut(|| e.e.world_to_camera(&wp(x))).data);
    check3(y, e.w2c(x), "world_to_camera(x) = R(x-c)");
    let z = r3(&sut(|| e.e.camera_to_world(&cp(x))).data);
    check3(z, e.c2w(x), "camera_to_world(x) = R^T x + c");
    let o = r3(&sut(|| e.e.world_to_camera(&wp(e.c))).data);
    check3(o, [R::k(0.0); 3], "the camera centre maps to the origin");
    let x2 = v3::<R>("x2");
    let y2 = r3(&sut(|| e.e.world_to_camera(&wp(x2))).data);
    let a = sub(y, y2);
    let b = sub(x, x2);
    check(dot(a, a), dot(b, b), "distances are preserved");
}

fn c02_repr<R: Sc>() {
    let mut e = Ext::<R>::new("");
    // however the camera was made
    let made = choose(3, "made by");
    match made {
        0 => {}
        1 => {
            // the pose with translation t has the centre -R^T t
            let t = mv(&e.m, scale(R::k(-1.0), e.c));
            let iso = Isometry3::from_parts(Translation3::new(t[0], t[1], t[2]), uq(e.q));
            e.e = sut(|| ExtrinsicParameters::from_pose(&iso));
        }
        _ => e.e = sut(|| e.e.clone()),
    }
    let e = e;
    let x = v3::<R>("x");
    let want = e.w2c(x);
    let t = mv(&e.m, scale(R::k(-1.0), e.c));
    // pose
    let y = sut(|| e.e.pose().transform_point(&pt(x)));
    check3([y[0], y[1], y[2]], want, "pose() maps like world_to_camera");
    // 3x4 matrix
    let m = sut(|| *e.e.matrix());
    for i in 0..3 {
        for j in 0..3 {
            check(m[(i, j)], e.m[i][j], &format!("matrix()[{i},{j}]"));
        }
        check(m[(i, 3)], t[i], &format!("matrix()[{i},3]"));
    }
    let r = sut(|| *e.e.rotation());
    for i in 0..3 {
        for j in 0..3 {
            check(r[(i, j)], e.m[i][j], &format!("rotation()[{i},{j}]"));
        }
    }
    let tr = sut(|| *e.e.translation());
    check3([tr[0], tr[1], tr[2]], t, "translation() = -R c");
    let cc = e.e.camcenter();
    if made == 1 {
        check3([cc[0], cc[1], cc[2]], e.c, "camcenter() is the given centre");
    } else {
        same3([cc[0], cc[1], cc[2]], e.c, "camcenter() is the given centre, unchanged");
    }
    let back = sut(|| e.e.world_to_camera(&wp(v3("x"))));
    check3(r3(&back.data), want, "world_to_camera");
    for (a, b, l) in [
        (arr(&sut(|| e.e.forward())), e.m[2], "forward() is the third row of the rotation"),
        (arr(&sut(|| e.e.up())), scale(R::k(-1.0), e.m[1]), "up() is minus the second row of the rotation"),
        (arr(&sut(|| e.e.right())), e.m[0], "right() is the first row of the rotation"),
    ] {
        check3(a, b, l);
    }
    // proper rotation
    let rr = [
        [r[(0, 0)], r[(0, 1)], r[(0, 2)]],
        [r[(1, 0)], r[(1, 1)], r[(1, 2)]],
        [r[(2, 0)], r[(2, 1)], r[(2, 2)]],
    ];
    check(dot(rr[0], cross(rr[1], rr[2])), R::k(1.0), "det rotation() = 1");
}

fn c03_from_pose<R: Sc>() {
    let q = quat::<R>("q");
    let t = v3::<R>("t");
    let iso = Isometry3::from_parts(Translation3::new(t[0], t[1], t[2]), uq(q));
    let e = sut(|| ExtrinsicParameters::from_pose(&iso));
    let x = v3::<R>("x");
    let m = rotm(q);
    let want = add(mv(&m, x), t);
    let y = r3(&sut(|| e.world_to_camera(&wp(x))).data);
    check3(y, want, "from_pose(iso).world_to_camera(x) = iso x");
    let z = r3(&sut(|| e.camera_to_world(&cp(x))).data);
    check3(z, mtv(&m, sub(x, t)), "from_pose(iso).camera_to_world(x) = iso^-1 x");
    let cc = e.camcenter();
    check3([cc[0], cc[1], cc[2]], scale(R::k(-1.0), mtv(&m, t)), "camcenter() = -R^T t");
    let p = e.pose();
    check3([p.translation.x, p.translation.y, p.translation.z], t, "pose().translation = t");
    let qq = p.rotation.quaternion();
    // the quaternion or its negative
    let r = rotm([qq.w, qq.i, qq.j, qq.k]);
    for i in 0..3 {
        for j in 0..3 {
            check(r[i][j], m[i][j], &format!("pose().rotation[{i},{j}]"));
        }
    }
}

fn c03_pose_roundtrip<R: Sc>() {
    let e = Ext::<R>::new("");
    let f = sut(|| ExtrinsicParameters::from_pose(e.e.pose()));
    let (a, b) = (f.camcenter(), e.e.camcenter());
    check3([a[0], a[1], a[2]], [b[0], b[1], b[2]], "from_pose(pose()).camcenter()");
    let x = v3::<R>("x");
    let y1 = r3(&sut(|| e.e.world_to_camera(&wp(x))).data);
    let y2 = r3(&sut(|| f.world_to_camera(&wp(x))).data);
    check3(y2, y1, "from_pose(pose()).world_to_camera(x)");
    for (k, (u, v)) in [
        (sut(|| f.forward()), sut(|| e.e.forward())),
        (sut(|| f.up()), sut(|| e.e.up())),
        (sut(|| f.right()), sut(|| e.e.right())),
    ]
    .iter()
    .enumerate()
    {
        check3(arr(u), arr(v), ["forward", "up", "right"][k]);
    }
}

fn c04_axes<R: Sc>() {
    let e = Ext::<R>::new("");
    let (z, o) = (R::k(0.0), R::k(1.0));
    let f = arr(&sut(|| e.e.forward()));
    let u = arr(&sut(|| e.e.up()));
    let r = arr(&sut(|| e.e.right()));
    check3(f, mtv(&e.m, [z, z, o]), "forward() = R^T (0,0,1)");
    check3(u, mtv(&e.m, [z, -o, z]), "up() = R^T (0,-1,0)");
    check3(r, mtv(&e.m, [o, z, z]), "right() = R^T (1,0,0)");
    check3(cross(u, r), f, "up x right = forward");
    check(dot(f, f), o, "|forward| = 1");
    check(dot(u, u), o, "|up| = 1");
    check(dot(r, r), o, "|right| = 1");
    check(dot(f, u), z, "forward . up = 0");
    check(dot(f, r), z, "forward . right = 0");
    check(dot(r, u), z, "right . up = 0");
}

fn c04_posindep<R: Sc>() {
    let q = quat::<R>("q");
    let a = Ext::<R>::of(q, v3("c"));
    let b = Ext::<R>::of(q, [R::k(0.0); 3]);
    same3(arr(&sut(|| a.e.forward())), arr(&sut(|| b.e.forward())), "strict:forward() does not depend on the centre");
    same3(arr(&sut(|| a.e.up())), arr(&sut(|| b.e.up())), "strict:up() does not depend on the centre");
    same3(arr(&sut(|| a.e.right())), arr(&sut(|| b.e.right())), "strict:right() does not depend on the centre");
}

/// Every (centre, look-at, up) with look-at != centre and up not parallel to the
/// viewing direction is  c, c + rho F3, a F3 + b F2  for a rotation F, rho > 0,
/// b > 0, a^2 + b^2 = 1.
fn c05_from_view<R: Sc>() {
    let p = quat::<R>("p");
    let f = rotm(p);
    let col = |j: usize| [f[0][j], f[1][j], f[2][j]];
    let c = v3::<R>("c");
    let rho = R::var("rho");
    positive(rho);
    let (a, b) = (R::var("a"), R::var("b"));
    unit(&[b, a]);
    positive(b);
    let dir = col(2);
    let look = add(c, scale(rho, dir));
    let up = add(scale(a, dir), scale(b, col(1)));
    let e = sut(|| {
        ExtrinsicParameters::from_view(&vec(c), &vec(look), &Unit::new_unchecked(vec(up)))
    });
    let cc = e.camcenter();
    same3([cc[0], cc[1], cc[2]], c, "camcenter() is the given centre");
    check3(arr(&sut(|| e.forward())), dir, "forward() points at the look-at point");
    check3(arr(&sut(|| e.up())), col(1), "up() is the given up, made orthogonal");
    check3(arr(&sut(|| e.right())), cross(dir, col(1)), "right() = forward x up");
    let y = r3(&sut(|| e.world_to_camera(&wp(look))).data);
    check3(y, [R::k(0.0), R::k(0.0), rho], "the look-at point is on the optical axis");
    // rows of the rotation: right, down, forward
    let r = sut(|| *e.rotation());
    let rows = [cross(dir, col(1)), scale(R::k(-1.0), col(1)), dir];
    for i in 0..3 {
        for j in 0..3 {
            check(r[(i, j)], rows[i][j], &format!("rotation()[{i},{j}]"));
        }
    }
}

fn c06_project<R: Sc>() {
    let k = Persp::<R>::new();
    let y = v3::<R>("y");
    nonzero(y[2]);
    let p = r2(&sut(|| k.i.camera_to_pixel(&cp(y))).data);
    let h = k.k(y);
    check2(p, [h[0] / h[2], h[1] / h[2]], "camera_to_pixel(y)");
    for (a, b, l) in [
        (k.i.fx(), k.p[0], "fx"),
        (k.i.fy(), k.p[1], "fy"),
        (k.i.skew(), k.p[2], "skew"),
        (k.i.cx(), k.p[3], "cx"),
        (k.i.cy(), k.p[4], "cy"),
        (k.i.params().fx, k.p[0], "params.fx"),
        (k.i.params().fy, k.p[1], "params.fy"),
        (k.i.params().skew, k.p[2], "params.skew"),
        (k.i.params().cx, k.p[3], "params.cx"),
        (k.i.params().cy, k.p[4], "params.cy"),
    ] {
        same(a, b, l);
    }
}

fn c06_scale<R: Sc>() {
    let k = Persp::<R>::new();
    let y = v3::<R>("y");
    nonzero(y[2]);
    let s = R::var("s");
    nonzero(s);
    let p = r2(&sut(|| k.i.camera_to_pixel(&cp(y))).data);
    let p2 = r2(&sut(|| k.i.camera_to_pixel(&cp(scale(s, y)))).data);
    check2(p2, p, "points of one line through the centre have one pixel");
}

fn c07_pixel_ray<R: Sc>() {
    let k = Persp::<R>::new().regular();
    let p = v2::<R>("p");
    let rays = sut(|| k.i.pixel_to_camera(&px(p)));
    let s = sut(|| rays.to_single_ray());
    check3(r3(&s.center), [R::k(0.0); 3], "rays start at the camera origin");
    check_rel(GT, s.direction[(0, 2)], R::k(0.0), "rays point forward (z > 0)");
    let q = sut(|| k.i.camera_to_pixel(&rays.point_on_ray()));
    check2(r2(&q.data), p, "camera_to_pixel(point_on_ray)");
    let d = R::var("d");
    nonzero(d);
    let q = sut(|| k.i.camera_to_pixel(&rays.point_on_ray_at_distance(d)));
    check2(r2(&q.data), p, "camera_to_pixel(point_on_ray_at_distance)");
}

fn c07_point_ray<R: Sc>() {
    let k = Persp::<R>::new().regular();
    let y = v3::<R>("y");
    nonzero(y[2]);
    let p = sut(|| k.i.camera_to_pixel(&cp(y)));
    let rays = sut(|| k.i.pixel_to_camera(&p));
    let s = sut(|| rays.to_single_ray());
    check3(cross(r3(&s.direction), sub(y, r3(&s.center))), [R::k(0.0); 3], "a point lies on the ray of its pixel");
}

fn c08_ortho<R: Sc>() {
    let k = Ortho::<R>::new();
    let y = v3::<R>("y");
    let p = r2(&sut(|| k.i.camera_to_pixel(&cp(y))).data);
    check2(p, [k.p[0] * y[0] + k.p[2], k.p[1] * y[1] + k.p[3]], "camera_to_pixel(y)");
    let z2 = R::var("z2");
    let p2 = r2(&sut(|| k.i.camera_to_pixel(&cp([y[0], y[1], z2]))).data);
    check2(p2, p, "the pixel does not depend on the depth");
    let u = v2::<R>("p");
    let rays = sut(|| k.i.pixel_to_camera(&px(u)));
    let s = sut(|| rays.to_single_ray());
    check3(r3(&s.direction), [R::k(0.0), R::k(0.0), R::k(1.0)], "rays are parallel to +z");
    check(s.center[(0, 2)], R::k(0.0), "rays start in the z=0 plane");
    let q = sut(|| k.i.camera_to_pixel(&rays.point_on_ray()));
    check2(r2(&q.data), u, "camera_to_pixel(point_on_ray)");
    let d = R::var("d");
    let q = sut(|| k.i.camera_to_pixel(&rays.point_on_ray_at_distance(d)));
    check2(r2(&q.data), u, "camera_to_pixel(point_on_ray_at_distance)");
    let p = sut(|| k.i.camera_to_pixel(&cp(y)));
    let s = sut(|| k.i.pixel_to_camera(&p).to_single_ray());
    check3(cross(r3(&s.direction), sub(y, r3(&s.center))), [R::k(0.0); 3], "a point lies on the ray of its pixel");
}

fn c09_persp<R: Sc>() {
    let k = Persp::<R>::new().regular();
    let e = Ext::<R>::new("");
    let x = v3::<R>("x");
    let y = e.w2c(x);
    nonzero(y[2]);
    let cam = sut(|| Camera::new(k.i.clone(), e.e.clone()));
    let p = sut(|| cam.world_to_pixel(&wp(x)));
    let h = k.k(y);
    check2(r2(&p.data), [h[0] / h[2], h[1] / h[2]], "world_to_pixel(x)");
    let s = sut(|| cam.pixel_to_world(&p).to_single_ray());
    check3(r3(&s.center), e.c, "rays start at the camera centre");
    check3(cross(r3(&s.direction), sub(x, e.c)), [R::k(0.0); 3], "a point lies on the world ray of its pixel");
    ok(cam.extrinsics() == &e.e, "extrinsics() are the given ones");
    same(cam.intrinsics().fx(), k.p[0], "intrinsics() are the given ones");
}

fn c09_persp_rep<R: Sc>() {
    let k = Persp::<R>::new().regular();
    let e = Ext::<R>::new("");
    let p = v2::<R>("p");
    let cam = sut(|| Camera::new(k.i.clone(), e.e.clone()));
    let rays = sut(|| cam.pixel_to_world(&px(p)));
    let s = sut(|| rays.to_single_ray());
    check3(r3(&s.center), e.c, "rays start at the camera centre");
    let f = mtv(&e.m, [R::k(0.0), R::k(0.0), R::k(1.0)]);
    check_rel(GT, dot(r3(&s.direction), f), R::k(0.0), "rays point into the viewing half-space");
    let q = sut(|| cam.world_to_pixel(&rays.point_on_ray()));
    check2(r2(&q.data), p, "world_to_pixel(point_on_ray)");
    let d = R::var("d");
    nonzero(d);
    let x = sut(|| rays.point_on_ray_at_distance(d));
    let v = sub(r3(&x.data), e.c);
    check(dot(v, v), d * d, "the point is at the requested distance from the centre");
    let q = sut(|| cam.world_to_pixel(&x));
    check2(r2(&q.data), p, "world_to_pixel(point_on_ray_at_distance)");
}

fn c09_ortho<R: Sc>() {
    let k = Ortho::<R>::new();
    let e = Ext::<R>::new("");
    let x = v3::<R>("x");
    let y = e.w2c(x);
    let cam = sut(|| Camera::new(k.i.clone(), e.e.clone()));
    let p = sut(|| cam.world_to_pixel(&wp(x)));
    check2(r2(&p.data), [k.p[0] * y[0] + k.p[2], k.p[1] * y[1] + k.p[3]], "world_to_pixel(x)");
    let s = sut(|| cam.pixel_to_world(&p).to_single_ray());
    let f = mtv(&e.m, [R::k(0.0), R::k(0.0), R::k(1.0)]);
    check3(r3(&s.direction), f, "rays are parallel to the viewing direction");
    check3(cross(r3(&s.direction), sub(x, r3(&s.center))), [R::k(0.0); 3], "a point lies on the world ray of its pixel");
    check(dot(f, sub(r3(&s.center), e.c)), R::k(0.0), "rays start in the plane of the camera centre");
    let u = v2::<R>("p");
    let rays = sut(|| cam.pixel_to_world(&px(u)));
    let d = R::var("d");
    let pd = sut(|| rays.point_on_ray_at_distance(d));
    let q = sut(|| cam.world_to_pixel(&pd));
    check2(r2(&q.data), u, "world_to_pixel(point_on_ray_at_distance)");
    check(dot(f, sub(r3(&pd.data), e.c)), d, "the point is at depth d");
    let q = sut(|| cam.world_to_pixel(&rays.point_on_ray()));
    check2(r2(&q.data), u, "world_to_pixel(point_on_ray)");
}

/// A shared-origin bundle with arbitrary origin o and two arbitrary directions.
fn origin_bundle<R: Sc>(
    o: [R; 3],
    d: [[R; 3]; 2],
) -> RayBundle<CameraFrame, cam_geom::ray_bundle_types::SharedOriginRayBundle<R>, R, nalgebra::U2, nalgebra::ArrayStorage<R, 2, 3>> {
    let data = SMatrix::<R, 2, 3>::new(d[0][0], d[0][1], d[0][2], d[1][0], d[1][1], d[1][2]);
    sut(|| {
        cam_geom::ray_bundle_types::SharedOriginRayBundle::new_shared_zero_origin()
            .to_pose(Isometry3::from_parts(Translation3::new(o[0], o[1], o[2]), nalgebra::UnitQuaternion::identity()), &data)
    })
}
fn rowi<R: Sc, const N: usize>(m: &SMatrix<R, N, 3>, i: usize) -> [R; 3] {
    [m[(i, 0)], m[(i, 1)], m[(i, 2)]]
}

fn c10_origin<R: Sc>() {
    let o = v3::<R>("o");
    let d = [v3::<R>("d0"), v3::<R>("d1")];
    positive(dot(d[0], d[0]));
    positive(dot(d[1], d[1]));
    let b = origin_bundle(o, d);
    let dirs = sut(|| b.directions());
    let cent = sut(|| b.centers());
    let pts = sut(|| b.point_on_ray());
    let t = R::var("t");
    let at = sut(|| b.point_on_ray_at_distance(t));
    for i in 0..2 {
        check3(rowi(&dirs, i), d[i], &format!("directions()[{i}]"));
        check3(rowi(&cent, i), o, &format!("centers()[{i}]"));
        check3(cross(d[i], sub(rowi(&pts.data, i), o)), [R::k(0.0); 3], &format!("point_on_ray()[{i}] is on the ray"));
        check_rel(GT, dot(d[i], sub(rowi(&pts.data, i), o)), R::k(0.0), &format!("point_on_ray()[{i}] is ahead of the origin"));
        let v = sub(rowi(&at.data, i), o);
        check3(cross(d[i], v), [R::k(0.0); 3], &format!("point_on_ray_at_distance()[{i}] is on the ray"));
        check(dot(v, v), t * t, &format!("point_on_ray_at_distance()[{i}] is at the distance"));
        check_rel(GE, t * dot(d[i], v), R::k(0.0), &format!("point_on_ray_at_distance()[{i}] is on the side given by the sign"));
    }
    let z = RayBundle::<CameraFrame, _, R, _, _>::new_shared_zero_origin(row(d[0]));
    let s = sut(|| z.to_single_ray());
    check3(r3(&s.direction), d[0], "to_single_ray().direction");
    check3(r3(&s.center), [R::k(0.0); 3], "to_single_ray().center");
}

fn c10_direction<R: Sc>() {
    let q = quat::<R>("q");
    let p = [v3::<R>("p0"), v3::<R>("p1")];
    let data = SMatrix::<R, 2, 3>::new(p[0][0], p[0][1], p[0][2], p[1][0], p[1][1], p[1][2]);
    let t = R::var("t");
    let b = RayBundle::<CameraFrame, _, R, _, _>::new_shared_plusz_direction(data);
    let z = [R::k(0.0), R::k(0.0), R::k(1.0)];
    let dirs = sut(|| b.directions());
    let cent = sut(|| b.centers());
    let at = sut(|| b.point_on_ray_at_distance(t));
    let pts = sut(|| b.point_on_ray());
    for i in 0..2 {
        check3(rowi(&dirs, i), z, &format!("directions()[{i}]"));
        check3(rowi(&cent, i), p[i], &format!("centers()[{i}]"));
        check3(rowi(&at.data, i), add(p[i], [R::k(0.0), R::k(0.0), t]), &format!("point_on_ray_at_distance()[{i}]"));
        check3(cross(z, sub(rowi(&pts.data, i), p[i])), [R::k(0.0); 3], &format!("point_on_ray()[{i}] is on the ray"));
        check_rel(GT, dot(z, sub(rowi(&pts.data, i), p[i])), R::k(0.0), &format!("point_on_ray()[{i}] is ahead of the origin"));
    }
    // arbitrary shared direction: the +z bundle, turned
    let iso = Isometry3::from_parts(Translation3::identity(), uq(q));
    let m = rotm(q);
    let dir = mv(&m, z);
    let unturned = [mtv(&m, p[0]), mtv(&m, p[1])];
    let data = SMatrix::<R, 2, 3>::new(
        unturned[0][0], unturned[0][1], unturned[0][2], unturned[1][0], unturned[1][1], unturned[1][2],
    );
    let b = sut(|| {
        cam_geom::ray_bundle_types::SharedDirectionRayBundle::new_plusz_shared_direction()
            .to_pose::<_, _, CameraFrame>(iso, &data)
    });
    let dirs = sut(|| b.directions());
    let cent = sut(|| b.centers());
    let at = sut(|| b.point_on_ray_at_distance(t));
    let pts = sut(|| b.point_on_ray());
    for i in 0..2 {
        check3(rowi(&dirs, i), dir, &format!("turned directions()[{i}]"));
        check3(rowi(&cent, i), p[i], &format!("turned centers()[{i}]"));
        check3(rowi(&at.data, i), add(p[i], scale(t, dir)), &format!("turned point_on_ray_at_distance()[{i}]"));
        let v = sub(rowi(&pts.data, i), p[i]);
        check3(cross(dir, v), [R::k(0.0); 3], &format!("turned point_on_ray()[{i}] is on the ray"));
        check_rel(GT, dot(dir, v), R::k(0.0), &format!("turned point_on_ray()[{i}] is ahead"));
    }
    let b1 = RayBundle::<CameraFrame, _, R, _, _>::new_shared_plusz_direction(row(p[0]));
    let s = sut(|| b1.to_single_ray());
    check3(r3(&s.direction), z, "to_single_ray().direction");
    check3(r3(&s.center), p[0], "to_single_ray().center");
}

fn c11_origin<R: Sc>() {
    let e = Ext::<R>::new("");
    let o = v3::<R>("o");
    let d = [v3::<R>("d0"), v3::<R>("d1")];
    let b = origin_bundle(o, d);
    let w = sut(|| e.e.ray_camera_to_world(&b));
    let dirs = sut(|| w.directions());
    let cent = sut(|| w.centers());
    let a = sut(|| b.point_on_ray());
    let wpts = sut(|| w.point_on_ray());
    for i in 0..2 {
        check3(rowi(&dirs, i), mtv(&e.m, d[i]), &format!("directions()[{i}]"));
        check3(rowi(&cent, i), e.c2w(o), &format!("centers()[{i}]"));
        check3(rowi(&wpts.data, i), e.c2w(rowi(&a.data, i)), &format!("point_on_ray()[{i}]"));
    }
    positive(dot(d[0], d[0]));
    positive(dot(d[1], d[1]));
    let t = R::var("t");
    let at = sut(|| b.point_on_ray_at_distance(t));
    let wat = sut(|| w.point_on_ray_at_distance(t));
    for i in 0..2 {
        check3(rowi(&wat.data, i), e.c2w(rowi(&at.data, i)), &format!("point_on_ray_at_distance()[{i}]"));
    }
}

fn c11_direction<R: Sc>() {
    let e = Ext::<R>::new("");
    let g = quat::<R>("g");
    let p = [v3::<R>("p0"), v3::<R>("p1")];
    let data = SMatrix::<R, 2, 3>::new(p[0][0], p[0][1], p[0][2], p[1][0], p[1][1], p[1][2]);
    let iso = Isometry3::from_parts(Translation3::identity(), uq(g));
    let b = sut(|| {
        cam_geom::ray_bundle_types::SharedDirectionRayBundle::new_plusz_shared_direction()
            .to_pose::<_, _, CameraFrame>(iso, &data)
    });
    let w = sut(|| e.e.ray_camera_to_world(&b));
    let gm = rotm(g);
    let dir = [gm[0][2], gm[1][2], gm[2][2]];
    let dirs = sut(|| w.directions());
    let cent = sut(|| w.centers());
    let t = R::var("t");
    let wat = sut(|| w.point_on_ray_at_distance(t));
    for i in 0..2 {
        let c = e.c2w(mv(&gm, p[i]));
        check3(rowi(&dirs, i), mtv(&e.m, dir), &format!("directions()[{i}]"));
        check3(rowi(&cent, i), c, &format!("centers()[{i}]"));
        check3(rowi(&wat.data, i), add(c, scale(t, mtv(&e.m, dir))), &format!("point_on_ray_at_distance()[{i}]"));
    }
}

/// Directions do not pass through positions (far from the origin they would lose all digits).
fn c11_posindep<R: Sc>() {
    let q = quat::<R>("q");
    let zero = [R::k(0.0); 3];
    let (a, b) = (Ext::<R>::of(q, v3("c")), Ext::<R>::of(q, zero));
    let d = [v3::<R>("d0"), v3::<R>("d1")];
    let far = sut(|| a.e.ray_camera_to_world(&origin_bundle(v3("o"), d)).directions());
    let near = sut(|| b.e.ray_camera_to_world(&origin_bundle(zero, d)).directions());
    for i in 0..2 {
        same3(rowi(&far, i), rowi(&near, i), &format!("strict:shared origin: directions()[{i}] do not depend on positions"));
    }
    let m = |p: [[R; 3]; 2]| SMatrix::<R, 2, 3>::from_fn(|i, j| p[i][j]);
    let par = |p| RayBundle::<CameraFrame, cam_geom::ray_bundle_types::SharedDirectionRayBundle<R>, R, _, _>::new_shared_plusz_direction(p);
    let far = sut(|| a.e.ray_camera_to_world(&par(m([v3("p0"), v3("p1")]))).directions());
    let near = sut(|| b.e.ray_camera_to_world(&par(m([zero; 2]))).directions());
    for i in 0..2 {
        same3(rowi(&far, i), rowi(&near, i), &format!("strict:shared direction: directions()[{i}] do not depend on positions"));
    }
}
fn c09_posindep<R: Sc>() {
    let q = quat::<R>("q");
    let (a, b) = (Ext::<R>::of(q, v3("c")), Ext::<R>::of(q, [R::k(0.0); 3]));
    let k = Persp::<R>::new().regular();
    let u = v2::<R>("p");
    let of = |e: &Ext<R>| r3(&sut(|| Camera::new(k.i.clone(), e.e.clone()).pixel_to_world(&px(u)).to_single_ray()).direction);
    same3(of(&a), of(&b), "strict:the direction of a world ray does not depend on the centre");
    let k = Ortho::<R>::new();
    let of = |e: &Ext<R>| r3(&sut(|| Camera::new(k.i.clone(), e.e.clone()).pixel_to_world(&px(u)).to_single_ray()).direction);
    same3(of(&a), of(&b), "strict:the direction of a parallel world ray does not depend on the centre");
}

fn c14_as_matrix<R: Sc>() {
    let k = Persp::<R>::new().regular();
    let e = Ext::<R>::new("");
    let x = v3::<R>("x");
    let y = e.w2c(x);
    nonzero(y[2]);
    let cam = sut(|| Camera::new(k.i.clone(), e.e.clone()));
    let m = sut(|| cam.as_camera_matrix());
    let h = k.k(y);
    let w = [
        m[(0, 0)] * x[0] + m[(0, 1)] * x[1] + m[(0, 2)] * x[2] + m[(0, 3)],
        m[(1, 0)] * x[0] + m[(1, 1)] * x[1] + m[(1, 2)] * x[2] + m[(1, 3)],
        m[(2, 0)] * x[0] + m[(2, 1)] * x[1] + m[(2, 2)] * x[2] + m[(2, 3)],
    ];
    check3(cross(w, h), [R::k(0.0); 3], "as_camera_matrix() x ~ K R (x - c)");
    check_rel(NE, w[2], R::k(0.0), "as_camera_matrix() has a nonzero depth row");
}

/// F(p+o) depth(p+o) = (F(p) + A o) depth(p+o) - (A o)(r3 . o), i.e. A is the derivative.
fn c15_jacobian<R: Sc>() {
    let k = Persp::<R>::new().regular();
    let e = Ext::<R>::new("");
    let x = v3::<R>("x");
    let y = e.w2c(x);
    nonzero(y[2]);
    let cam = sut(|| Camera::new(k.i.clone(), e.e.clone()));
    let a = sut(|| cam_geom::linearize::JacobianPerspectiveCache::new(&cam).linearize_at(&wp(x)));
    // analytic derivative of (K y)_{0,1} / y_2 by x
    let [fx, fy, s, cx, cy] = k.p;
    let h = k.k(y);
    for j in 0..3 {
        let dy = [e.m[0][j], e.m[1][j], e.m[2][j]];
        let du = fx * dy[0] + s * dy[1] + cx * dy[2];
        let dv = fy * dy[1] + cy * dy[2];
        check(a[(0, j)], (du * y[2] - h[0] * dy[2]) / (y[2] * y[2]), &format!("du/dx[{j}]"));
        check(a[(1, j)], (dv * y[2] - h[1] * dy[2]) / (y[2] * y[2]), &format!("dv/dx[{j}]"));
    }
}
#[allow(dead_code)]
fn _unused<R: Sc>(_: Vector3<R>) {}
