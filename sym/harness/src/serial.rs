//! C17: serialisation, through an in-memory self-describing format.
use crate::geom::*;
use crate::sym::*;
use cam_geom::*;
use serde::de::{DeserializeOwned, DeserializeSeed, Visitor};
use serde::{de, forward_to_deserialize_any, ser, Serialize};
use std::fmt;
use cam_geom::ray_bundle_types::{SharedDirectionRayBundle, SharedOriginRayBundle};
use nalgebra::{storage::Owned, Isometry3, Translation3, UnitQuaternion, U2, U3};

#[derive(Clone, Debug)]
pub enum Tree {
    F64(f64),
    F32(f32),
    Int(u64),
    Str(String),
    Unit,
    Seq(Vec<Tree>),
    Map(Vec<(String, Tree)>),
}

#[derive(Debug)]
pub struct E(String);
impl fmt::Display for E {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        f.write_str(&self.0)
    }
}
impl std::error::Error for E {}
impl ser::Error for E {
    fn custom<T: fmt::Display>(m: T) -> Self {
        E(m.to_string())
    }
}
impl de::Error for E {
    fn custom<T: fmt::Display>(m: T) -> Self {
        E(m.to_string())
    }
}

// ---- writing ----
struct S;
struct SSeq(Vec<Tree>);
struct SMap(Vec<(String, Tree)>, Option<String>);
type RS = Result<Tree, E>;
impl ser::Serializer for S {
    type Ok = Tree;
    type Error = E;
    type SerializeSeq = SSeq;
    type SerializeTuple = SSeq;
    type SerializeTupleStruct = SSeq;
    type SerializeTupleVariant = SSeq;
    type SerializeMap = SMap;
    type SerializeStruct = SMap;
    type SerializeStructVariant = SMap;
    fn serialize_bool(self, v: bool) -> RS {
        Ok(Tree::Int(v as u64))
    }
    fn serialize_i8(self, v: i8) -> RS {
        Ok(Tree::Int(v as u64))
    }
    fn serialize_i16(self, v: i16) -> RS {
        Ok(Tree::Int(v as u64))
    }
    fn serialize_i32(self, v: i32) -> RS {
        Ok(Tree::Int(v as u64))
    }
    fn serialize_i64(self, v: i64) -> RS {
        Ok(Tree::Int(v as u64))
    }
    fn serialize_u8(self, v: u8) -> RS {
        Ok(Tree::Int(v as u64))
    }
    fn serialize_u16(self, v: u16) -> RS {
        Ok(Tree::Int(v as u64))
    }
    fn serialize_u32(self, v: u32) -> RS {
        Ok(Tree::Int(v as u64))
    }
    fn serialize_u64(self, v: u64) -> RS {
        Ok(Tree::Int(v))
    }
    fn serialize_f32(self, v: f32) -> RS {
        Ok(Tree::F32(v))
    }
    fn serialize_f64(self, v: f64) -> RS {
        Ok(Tree::F64(v))
    }
    fn serialize_char(self, v: char) -> RS {
        Ok(Tree::Str(v.to_string()))
    }
    fn serialize_str(self, v: &str) -> RS {
        Ok(Tree::Str(v.to_string()))
    }
    fn serialize_bytes(self, v: &[u8]) -> RS {
        Ok(Tree::Seq(v.iter().map(|b| Tree::Int(*b as u64)).collect()))
    }
    fn serialize_none(self) -> RS {
        Ok(Tree::Unit)
    }
    fn serialize_some<T: ?Sized + Serialize>(self, v: &T) -> RS {
        v.serialize(S)
    }
    fn serialize_unit(self) -> RS {
        Ok(Tree::Unit)
    }
    fn serialize_unit_struct(self, _: &'static str) -> RS {
        Ok(Tree::Unit)
    }
    fn serialize_unit_variant(self, _: &'static str, _: u32, v: &'static str) -> RS {
        Ok(Tree::Str(v.to_string()))
    }
    fn serialize_newtype_struct<T: ?Sized + Serialize>(self, _: &'static str, v: &T) -> RS {
        v.serialize(S)
    }
    fn serialize_newtype_variant<T: ?Sized + Serialize>(self, _: &'static str, _: u32, n: &'static str, v: &T) -> RS {
        Ok(Tree::Map(vec![(n.to_string(), v.serialize(S)?)]))
    }
    fn serialize_seq(self, _: Option<usize>) -> Result<SSeq, E> {
        Ok(SSeq(vec![]))
    }
    fn serialize_tuple(self, _: usize) -> Result<SSeq, E> {
        Ok(SSeq(vec![]))
    }
    fn serialize_tuple_struct(self, _: &'static str, _: usize) -> Result<SSeq, E> {
        Ok(SSeq(vec![]))
    }
    fn serialize_tuple_variant(self, _: &'static str, _: u32, _: &'static str, _: usize) -> Result<SSeq, E> {
        Ok(SSeq(vec![]))
    }
    fn serialize_map(self, _: Option<usize>) -> Result<SMap, E> {
        Ok(SMap(vec![], None))
    }
    fn serialize_struct(self, _: &'static str, _: usize) -> Result<SMap, E> {
        Ok(SMap(vec![], None))
    }
    fn serialize_struct_variant(self, _: &'static str, _: u32, _: &'static str, _: usize) -> Result<SMap, E> {
        Ok(SMap(vec![], None))
    }
}
macro_rules! seqlike {
    ($($t:ident $f:ident),*) => {$(
        impl ser::$t for SSeq {
            type Ok = Tree;
            type Error = E;
            fn $f<T: ?Sized + Serialize>(&mut self, v: &T) -> Result<(), E> {
                self.0.push(v.serialize(S)?);
                Ok(())
            }
            fn end(self) -> RS {
                Ok(Tree::Seq(self.0))
            }
        }
    )*};
}
seqlike!(SerializeSeq serialize_element, SerializeTuple serialize_element, SerializeTupleStruct serialize_field, SerializeTupleVariant serialize_field);
impl ser::SerializeMap for SMap {
    type Ok = Tree;
    type Error = E;
    fn serialize_key<T: ?Sized + Serialize>(&mut self, k: &T) -> Result<(), E> {
        match k.serialize(S)? {
            Tree::Str(s) => self.1 = Some(s),
            _ => return Err(E("key".into())),
        }
        Ok(())
    }
    fn serialize_value<T: ?Sized + Serialize>(&mut self, v: &T) -> Result<(), E> {
        self.0.push((self.1.take().unwrap(), v.serialize(S)?));
        Ok(())
    }
    fn end(self) -> RS {
        Ok(Tree::Map(self.0))
    }
}
macro_rules! maplike {
    ($($t:ident),*) => {$(
        impl ser::$t for SMap {
            type Ok = Tree;
            type Error = E;
            fn serialize_field<T: ?Sized + Serialize>(&mut self, k: &'static str, v: &T) -> Result<(), E> {
                self.0.push((k.to_string(), v.serialize(S)?));
                Ok(())
            }
            fn end(self) -> RS {
                Ok(Tree::Map(self.0))
            }
        }
    )*};
}
maplike!(SerializeStruct, SerializeStructVariant);

// ---- reading ----
#[derive(Clone, Copy)]
struct D<'a>(&'a Tree);
struct DSeq<'a>(&'a [Tree]);
struct DMap<'a>(&'a [(String, Tree)], Option<&'a Tree>);
impl<'de, 'a> de::Deserializer<'de> for D<'a> {
    type Error = E;
    fn deserialize_any<V: Visitor<'de>>(self, v: V) -> Result<V::Value, E> {
        match self.0 {
            Tree::F64(x) => v.visit_f64(*x),
            Tree::F32(x) => v.visit_f32(*x),
            Tree::Int(x) => v.visit_u64(*x),
            Tree::Str(s) => v.visit_str(s),
            Tree::Unit => v.visit_unit(),
            Tree::Seq(s) => v.visit_seq(DSeq(s)),
            Tree::Map(m) => v.visit_map(DMap(m, None)),
        }
    }
    fn deserialize_option<V: Visitor<'de>>(self, v: V) -> Result<V::Value, E> {
        match self.0 {
            Tree::Unit => v.visit_none(),
            _ => v.visit_some(self),
        }
    }
    fn deserialize_newtype_struct<V: Visitor<'de>>(self, _: &'static str, v: V) -> Result<V::Value, E> {
        v.visit_newtype_struct(self)
    }
    forward_to_deserialize_any! {
        bool i8 i16 i32 i64 u8 u16 u32 u64 f32 f64 char str string bytes byte_buf unit unit_struct seq
        tuple tuple_struct map struct enum identifier ignored_any
    }
}
impl<'de, 'a> de::SeqAccess<'de> for DSeq<'a> {
    type Error = E;
    fn next_element_seed<T: DeserializeSeed<'de>>(&mut self, seed: T) -> Result<Option<T::Value>, E> {
        match self.0.split_first() {
            None => Ok(None),
            Some((x, rest)) => {
                self.0 = rest;
                seed.deserialize(D(x)).map(Some)
            }
        }
    }
    fn size_hint(&self) -> Option<usize> {
        Some(self.0.len())
    }
}
impl<'de, 'a> de::MapAccess<'de> for DMap<'a> {
    type Error = E;
    fn next_key_seed<K: DeserializeSeed<'de>>(&mut self, seed: K) -> Result<Option<K::Value>, E> {
        match self.0.split_first() {
            None => Ok(None),
            Some(((k, x), rest)) => {
                self.0 = rest;
                self.1 = Some(x);
                seed.deserialize(D(&Tree::Str(k.clone()))).map(Some)
            }
        }
    }
    fn next_value_seed<V: DeserializeSeed<'de>>(&mut self, seed: V) -> Result<V::Value, E> {
        seed.deserialize(D(self.1.take().expect("a key first")))
    }
}

// ---- the objects ----
trait Obj<R: Sc>: Serialize + DeserializeOwned {
    fn new() -> Self;
    /// same observable behaviour
    fn agree(&self, o: &Self);
}
impl<R: Sc> Obj<R> for ExtrinsicParameters<R> {
    fn new() -> Self {
        ExtrinsicParameters::from_rotation_and_camcenter(uq(quat::<R>("q")), pt(v3::<R>("c")))
    }
    fn agree(&self, o: &Self) {
        let (a, b) = (self.pose().rotation, o.pose().rotation);
        let (a, b) = (a.quaternion(), b.quaternion());
        for (k, (x, y)) in [(a.w, b.w), (a.i, b.i), (a.j, b.j), (a.k, b.k)].into_iter().enumerate() {
            same(y, x, &format!("quaternion component {k}"));
        }
        let (a, b) = (self.camcenter(), o.camcenter());
        let (g, h) = (self.rotation(), o.rotation());
        for i in 0..3 {
            same(b[i], a[i], &format!("camcenter()[{i}]"));
            for j in 0..3 {
                same(h[(i, j)], g[(i, j)], &format!("rotation()[{i},{j}]"));
            }
        }
        let x = v3::<R>("x");
        let (a, b) = (self.world_to_camera(&wp(x)), o.world_to_camera(&wp(x)));
        let y = Points::<CameraFrame, R, _, _>::new(row(x));
        let (c, d) = (self.camera_to_world(&y), o.camera_to_world(&y));
        for j in 0..3 {
            same(b.data[(0, j)], a.data[(0, j)], &format!("world_to_camera[{j}]"));
            same(d.data[(0, j)], c.data[(0, j)], &format!("camera_to_world[{j}]"));
            same(o.translation()[j], self.translation()[j], &format!("translation()[{j}]"));
            for i in 0..4 {
                same(o.matrix()[(j, i)], self.matrix()[(j, i)], &format!("matrix()[{j},{i}]"));
            }
        }
        same3(arr(&o.forward()), arr(&self.forward()), "forward()");
        same3(arr(&o.up()), arr(&self.up()), "up()");
        same3(arr(&o.right()), arr(&self.right()), "right()");
    }
}
impl<R: Sc> Obj<R> for PerspectiveParams<R> {
    fn new() -> Self {
        PerspectiveParams { fx: R::var("fx"), fy: R::var("fy"), skew: R::var("skew"), cx: R::var("cx"), cy: R::var("cy") }
    }
    fn agree(&self, o: &Self) {
        same(o.fx, self.fx, "fx");
        same(o.fy, self.fy, "fy");
        same(o.skew, self.skew, "skew");
        same(o.cx, self.cx, "cx");
        same(o.cy, self.cy, "cy");
    }
}
impl<R: Sc> Obj<R> for IntrinsicParametersPerspective<R> {
    fn new() -> Self {
        PerspectiveParams::<R>::new().into()
    }
    fn agree(&self, o: &Self) {
        same(o.fx(), self.fx(), "fx");
        same(o.fy(), self.fy(), "fy");
        same(o.skew(), self.skew(), "skew");
        same(o.cx(), self.cx(), "cx");
        same(o.cy(), self.cy(), "cy");
        points(self, o);
    }
}
impl<R: Sc> Obj<R> for OrthographicParams<R> {
    fn new() -> Self {
        OrthographicParams { sx: R::var("sx"), sy: R::var("sy"), cx: R::var("cx"), cy: R::var("cy") }
    }
    fn agree(&self, o: &Self) {
        same(o.sx, self.sx, "sx");
        same(o.sy, self.sy, "sy");
        same(o.cx, self.cx, "cx");
        same(o.cy, self.cy, "cy");
    }
}
fn points<R: Sc, I: IntrinsicParameters<R>>(a: &I, b: &I) {
    let x = v3::<R>("x");
    let p = Points::<CameraFrame, R, _, _>::new(row(x));
    let (u, v) = (a.camera_to_pixel(&p), b.camera_to_pixel(&p));
    same(v.data[(0, 0)], u.data[(0, 0)], "camera_to_pixel u");
    same(v.data[(0, 1)], u.data[(0, 1)], "camera_to_pixel v");
}
impl<R: Sc> Obj<R> for IntrinsicParametersOrthographic<R> {
    fn new() -> Self {
        OrthographicParams::<R>::new().into()
    }
    fn agree(&self, o: &Self) {
        points(self, o);
        let u = [R::var("pu"), R::var("pv")];
        let px = Pixels::new(nalgebra::SMatrix::<R, 1, 2>::new(u[0], u[1]));
        let (a, b) = (self.pixel_to_camera(&px).point_on_ray(), o.pixel_to_camera(&px).point_on_ray());
        for j in 0..3 {
            same(b.data[(0, j)], a.data[(0, j)], &format!("pixel_to_camera[{j}]"));
        }
    }
}
impl<R: Sc, I: IntrinsicParameters<R> + Obj<R>> Obj<R> for Camera<R, I> {
    fn new() -> Self {
        Camera::new(I::new(), ExtrinsicParameters::new())
    }
    fn agree(&self, o: &Self) {
        self.intrinsics().agree(o.intrinsics());
        self.extrinsics().agree(o.extrinsics());
        let x = v3::<R>("x");
        let (u, v) = (self.world_to_pixel(&wp(x)), o.world_to_pixel(&wp(x)));
        same(v.data[(0, 0)], u.data[(0, 0)], "world_to_pixel u");
        same(v.data[(0, 1)], u.data[(0, 1)], "world_to_pixel v");
    }
}

// ---- ray bundles ----
type Central<F, R> = RayBundle<F, SharedOriginRayBundle<R>, R, U2, Owned<R, U2, U3>>;
type Parallel<F, R> = RayBundle<F, SharedDirectionRayBundle<R>, R, U2, Owned<R, U2, U3>>;
fn rows<R: Sc>() -> nalgebra::SMatrix<R, 2, 3> {
    let p = [v3::<R>("p0"), v3::<R>("p1")];
    nalgebra::SMatrix::from_fn(|i, j| p[i][j])
}
fn agree_bundles<F: CoordinateSystem, B: Bundle<R>, R: Sc>(
    a: &RayBundle<F, B, R, U2, Owned<R, U2, U3>>,
    b: &RayBundle<F, B, R, U2, Owned<R, U2, U3>>,
) {
    let t = R::var("t");
    for (x, y, l) in [
        (a.data, b.data, "data"),
        (a.directions(), b.directions(), "directions()"),
        (a.centers(), b.centers(), "centers()"),
        (a.point_on_ray().data, b.point_on_ray().data, "point_on_ray()"),
        (a.point_on_ray_at_distance(t).data, b.point_on_ray_at_distance(t).data, "point_on_ray_at_distance()"),
    ] {
        for i in 0..2 {
            for j in 0..3 {
                same(y[(i, j)], x[(i, j)], &format!("{l}[{i},{j}]"));
            }
        }
    }
}
impl<R: Sc, F: CoordinateSystem + Serialize + DeserializeOwned> Obj<R> for Central<F, R> {
    fn new() -> Self {
        let o = v3::<R>("o");
        let s = Isometry3::from_parts(Translation3::new(o[0], o[1], o[2]), UnitQuaternion::identity());
        SharedOriginRayBundle::new_shared_zero_origin().to_pose(s, &rows())
    }
    fn agree(&self, o: &Self) {
        agree_bundles(self, o);
    }
}
impl<R: Sc, F: CoordinateSystem + Serialize + DeserializeOwned> Obj<R> for Parallel<F, R> {
    fn new() -> Self {
        let t = Isometry3::from_parts(Translation3::identity(), uq(quat::<R>("g")));
        SharedDirectionRayBundle::new_plusz_shared_direction().to_pose(t, &rows())
    }
    fn agree(&self, o: &Self) {
        agree_bundles(self, o);
    }
}

fn write<T: Serialize>(x: &T) -> Tree {
    match sut(|| x.serialize(S)) {
        Ok(t) => t,
        Err(_) => {
            ok(false, "serialisation succeeds");
            stop()
        }
    }
}
fn read<T: DeserializeOwned>(t: &Tree) -> Result<T, E> {
    sut(|| T::deserialize(D(t)))
}

/// the k-th permutation
fn permute<T: Clone>(v: &[T], mut k: usize) -> Vec<T> {
    let mut v = v.to_vec();
    let mut out = vec![];
    while !v.is_empty() {
        let n = v.len();
        out.push(v.remove(k % n));
        k /= n;
    }
    out
}
fn fact(n: usize) -> usize {
    (1..=n).product()
}
/// Every order of the fields of the outermost map; inner maps are reversed, or not.
fn reorder(t: &Tree, k: usize, rev: bool) -> Tree {
    match t {
        Tree::Map(m) => Tree::Map(permute(m, k).into_iter().map(|(n, x)| {
            let f = match &x {
                Tree::Map(y) if rev => fact(y.len()) - 1,
                _ => 0,
            };
            (n, reorder(&x, f, rev))
        }).collect()),
        t => t.clone(),
    }
}
fn as_seq(t: &Tree) -> Tree {
    match t {
        Tree::Map(m) => Tree::Seq(m.iter().map(|(_, x)| as_seq(x)).collect()),
        t => t.clone(),
    }
}

fn roundtrip<R: Sc, T: Obj<R>>() {
    let a = T::new();
    let t = write(&a);
    let n = match &t {
        Tree::Map(m) => m.len(),
        _ => 1,
    };
    let t = if choose(2, "container") == 0 {
        {
            let first = choose(n, "first field");
            reorder(&t, first + n * choose(fact(n - 1), "order of the others"), choose(2, "inner order") == 1)
        }
    } else {
        as_seq(&t)
    };
    match read::<T>(&t) {
        Ok(b) => a.agree(&b),
        Err(_) => ok(false, "what was serialised can be deserialised"),
    }
}

/// The maps of the tree, outermost first, as paths.
fn maps(t: &Tree, path: Vec<usize>, out: &mut Vec<Vec<usize>>) {
    if let Tree::Map(m) = t {
        out.push(path.clone());
        for (i, (_, x)) in m.iter().enumerate() {
            let mut p = path.clone();
            p.push(i);
            maps(x, p, out);
        }
    }
}
fn at<'a>(t: &'a mut Tree, path: &[usize]) -> &'a mut Tree {
    match path.split_first() {
        None => t,
        Some((i, rest)) => match t {
            Tree::Map(m) => at(&mut m[*i].1, rest),
            Tree::Seq(m) => at(&mut m[*i], rest),
            _ => unreachable!(),
        },
    }
}
fn scramble(t: &Tree, k: &mut usize, wide: bool) -> Tree {
    let mut f = |t: &Tree| scramble(t, k, wide);
    match t {
        Tree::Seq(s) => Tree::Seq(s.iter().map(f).collect()),
        Tree::Map(s) => Tree::Map(s.iter().map(|(n, x)| (n.clone(), f(x))).collect()),
        Tree::F64(_) => {
            *k += 1;
            Tree::F64(f64::var(&format!("other{k}")))
        }
        Tree::F32(_) => {
            *k += 1;
            Tree::F32(f32::var(&format!("other{k}")))
        }
        t => t.clone(),
    }
}
fn malformed<R: Sc, T: Obj<R>>() {
    let a = T::new();
    let t = write(&a);
    let mut ps = vec![];
    maps(&t, vec![], &mut ps);
    ok(!ps.is_empty(), "objects are maps");
    if ps.is_empty() {
        return;
    }
    let how = choose(7, "defect");
    let seq = how == 2;
    let mut t = if seq { as_seq(&t) } else { t };
    let p = ps[choose(ps.len(), "level")].clone();
    let node = at(&mut t, &p);
    let must_fail = match (how, node) {
        (0, Tree::Map(m)) => {
            let i = choose(m.len(), "missing field");
            m.remove(i);
            true
        }
        (1, Tree::Map(m)) => {
            let i = choose(m.len(), "duplicate field");
            let pos = choose(m.len() + 1, "position");
            let again = (m[i].0.clone(), scramble(&m[i].1, &mut 0, false));
            m.insert(pos, again);
            true
        }
        (2, Tree::Seq(s)) => {
            let n = choose(s.len(), "length");
            s.truncate(n);
            true
        }
        (3, Tree::Map(m)) => {
            let pos = choose(m.len() + 1, "position");
            let key = ["", "Fx", "extra", "cache", "camcenter2"][choose(5, "key")];
            m.insert(pos, (key.to_string(), Tree::F64(1.0)));
            false
        }
        (4, Tree::Map(m)) => {
            let i = choose(m.len(), "renamed field");
            m[i].0 = format!("{}_", m[i].0);
            true
        }
        (5, Tree::Map(m)) => {
            // a value of another kind
            let i = choose(m.len(), "field of another kind");
            let unit = matches!(m[i].1, Tree::Unit);
            m[i].1 = [if unit { Tree::Int(3) } else { Tree::Unit }, Tree::Str("1".into()), Tree::Seq(vec![]), Tree::Map(vec![])][choose(4, "kind")].clone();
            true
        }
        (6, Tree::Map(m)) => {
            // a shorter array of numbers
            let i = choose(m.len(), "short array");
            match &mut m[i].1 {
                Tree::Seq(s) if s.len() == 1 => match &mut s[0] {
                    Tree::Seq(s) => {
                        s.pop();
                        true
                    }
                    _ => {
                        s.pop();
                        true
                    }
                },
                Tree::Seq(s) => {
                    s.pop();
                    true
                }
                _ => return,
            }
        }
        _ => unreachable!(),
    };
    match read::<T>(&t) {
        Ok(b) => {
            ok(!must_fail, "malformed data gives an error");
            if !must_fail {
                // an unknown field that is ignored leaves the object alone
                a.agree(&b);
            }
        }
        Err(_) => ok(true, "malformed data gives an error"),
    }
}

type Ob = Vec<(&'static str, i32, fn())>;
pub fn table(t: &mut Ob) {
    macro_rules! go {
        ($($n:literal $t:ty, $u:ty);*) => {$(
            t.push((concat!("C17.roundtrip.", $n, ".f64"), 0, roundtrip::<f64, $t>));
            t.push((concat!("C17.roundtrip.", $n, ".f32"), 0, roundtrip::<f32, $u>));
            t.push((concat!("C17.malformed.", $n, ".f64"), 0, malformed::<f64, $t>));
            t.push((concat!("C17.malformed.", $n, ".f32"), 0, malformed::<f32, $u>));
        )*};
    }
    go!("extrinsics" ExtrinsicParameters<f64>, ExtrinsicParameters<f32>;
        "perspective_params" PerspectiveParams<f64>, PerspectiveParams<f32>;
        "perspective" IntrinsicParametersPerspective<f64>, IntrinsicParametersPerspective<f32>;
        "orthographic_params" OrthographicParams<f64>, OrthographicParams<f32>;
        "orthographic" IntrinsicParametersOrthographic<f64>, IntrinsicParametersOrthographic<f32>;
        "perspective_camera" Camera<f64, IntrinsicParametersPerspective<f64>>, Camera<f32, IntrinsicParametersPerspective<f32>>;
        "central_bundle" Central<WorldFrame, f64>, Central<WorldFrame, f32>;
        "parallel_bundle" Parallel<CameraFrame, f64>, Parallel<CameraFrame, f32>;
        "orthographic_camera" Camera<f64, IntrinsicParametersOrthographic<f64>>, Camera<f32, IntrinsicParametersOrthographic<f32>>);
}
