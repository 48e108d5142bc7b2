//! f64 reference of similarities in space, with a bound of the rounding an f32 computation of them may have.
use auburn::col3d::*;
use bevy::prelude::Transform;

pub type V = [f64; 3];
pub const EPS: f64 = 4.8e-7;

pub fn add(a: V, b: V) -> V {
    [a[0] + b[0], a[1] + b[1], a[2] + b[2]]
}
pub fn sub(a: V, b: V) -> V {
    [a[0] - b[0], a[1] - b[1], a[2] - b[2]]
}
pub fn mul(a: V, k: f64) -> V {
    a.map(|x| x * k)
}
pub fn dot(a: V, b: V) -> f64 {
    a[0] * b[0] + a[1] * b[1] + a[2] * b[2]
}
pub fn cross(a: V, b: V) -> V {
    [a[1] * b[2] - a[2] * b[1], a[2] * b[0] - a[0] * b[2], a[0] * b[1] - a[1] * b[0]]
}
pub fn len(a: V) -> f64 {
    dot(a, a).sqrt()
}
pub fn v32(p: V) -> Vec3 {
    Vec3::new(p[0] as f32, p[1] as f32, p[2] as f32)
}
pub fn v64(v: Vec3) -> V {
    [v.x as f64, v.y as f64, v.z as f64]
}

/// Rotation by `angle` around `axis`.
#[derive(Clone, Copy, Debug)]
pub struct Turn {
    pub axis: V,
    pub angle: f64,
}

/// Unit quaternion (x, y, z, w) in f64.
pub type Q = [f64; 4];

impl Turn {
    pub const NO: Turn = Turn { axis: [0.0, 0.0, 1.0], angle: 0.0 };
    pub fn q(&self) -> Q {
        let a = mul(self.axis, 1.0 / len(self.axis));
        let (s, c) = (self.angle / 2.0).sin_cos();
        [a[0] * s, a[1] * s, a[2] * s, c]
    }
    pub fn quat(&self) -> Quat {
        let q = self.q();
        Quat::from_xyzw(q[0] as f32, q[1] as f32, q[2] as f32, q[3] as f32)
    }
}
pub fn qmul(a: Q, b: Q) -> Q {
    let (u, v) = ([a[0], a[1], a[2]], [b[0], b[1], b[2]]);
    let c = add(add(mul(v, a[3]), mul(u, b[3])), cross(u, v));
    [c[0], c[1], c[2], a[3] * b[3] - dot(u, v)]
}
pub fn qconj(a: Q) -> Q {
    [-a[0], -a[1], -a[2], a[3]]
}
pub fn rot(q: Q, v: V) -> V {
    let u = [q[0], q[1], q[2]];
    let t = mul(cross(u, v), 2.0);
    add(add(v, mul(t, q[3])), cross(u, t))
}

/// Rotation, then uniform scale, then translation.
#[derive(Clone, Copy, Debug)]
pub struct Sim {
    pub q: Q,
    pub k: f64,
    pub p: V,
}
impl Sim {
    pub const ID: Sim = Sim { q: [0.0, 0.0, 0.0, 1.0], k: 1.0, p: [0.0; 3] };
    pub fn rot(&self, v: V) -> V {
        rot(self.q, v)
    }
    pub fn apply(&self, v: V) -> V {
        add(mul(rot(self.q, v), self.k), self.p)
    }
    pub fn unapply(&self, v: V) -> V {
        mul(rot(qconj(self.q), sub(v, self.p)), 1.0 / self.k)
    }
    pub fn then(&self, inner: &Sim) -> Sim {
        Sim { q: qmul(self.q, inner.q), k: self.k * inner.k, p: self.apply(inner.p) }
    }
    pub fn inverse(&self) -> Sim {
        Sim { q: qconj(self.q), k: 1.0 / self.k, p: self.unapply([0.0; 3]) }
    }
}

/// A pose as given to the code under test.
#[derive(Clone, Copy, Debug)]
pub struct Spot {
    pub turn: Turn,
    pub k: f32,
    pub p: [f32; 3],
}
impl Spot {
    pub fn new(axis: V, angle: f64, k: f32, p: [f32; 3]) -> Spot {
        Spot { turn: Turn { axis, angle }, k, p }
    }
    pub fn sim(&self) -> Sim {
        Sim { q: self.turn.q(), k: self.k as f64, p: self.p.map(|x| x as f64) }
    }
}

#[derive(Clone, Copy, Debug, PartialEq)]
pub enum Kind {
    Vector,
    Translate,
    Axis,
    Isotropic,
    Full,
    Engine,
}
pub const KINDS: [Kind; 6] = [Kind::Vector, Kind::Translate, Kind::Axis, Kind::Isotropic, Kind::Full, Kind::Engine];
impl Kind {
    pub fn turns(self) -> bool {
        matches!(self, Kind::Isotropic | Kind::Full | Kind::Engine)
    }
    pub fn scales(self) -> bool {
        !matches!(self, Kind::Vector | Kind::Translate)
    }
}

pub trait Rep: Transformation3d + DeltaTransform + Composable + Invertible + Default {
    fn make(s: &Spot) -> Self;
}
fn engine(s: &Spot) -> Transform {
    Transform { translation: Vec3::from(s.p), rotation: s.turn.quat(), scale: Vec3::splat(s.k) }
}
impl Rep for Vec3 {
    fn make(s: &Spot) -> Self {
        Vec3::from(s.p)
    }
}
impl Rep for Translate3d {
    fn make(s: &Spot) -> Self {
        Translate3d::new(Vec3::from(s.p))
    }
}
impl Rep for AxisTransform3d {
    fn make(s: &Spot) -> Self {
        AxisTransform3d::new(Vec3::from(s.p), s.k)
    }
}
impl Rep for Isotropic3d {
    fn make(s: &Spot) -> Self {
        engine(s).into()
    }
}
impl Rep for Transform3d {
    fn make(s: &Spot) -> Self {
        engine(s).into()
    }
}
impl Rep for Transform {
    fn make(s: &Spot) -> Self {
        engine(s)
    }
}

#[macro_export]
macro_rules! with_kind {
    ($k:expr, $f:ident ( $($a:expr),* )) => {
        match $k {
            Kind::Vector => $f::<Vec3>($($a),*),
            Kind::Translate => $f::<Translate3d>($($a),*),
            Kind::Axis => $f::<AxisTransform3d>($($a),*),
            Kind::Isotropic => $f::<Isotropic3d>($($a),*),
            Kind::Full => $f::<Transform3d>($($a),*),
            Kind::Engine => $f::<bevy::prelude::Transform>($($a),*),
        }
    };
}
