//! Shapes, placements and queries of the real crate behind one uniform face.
use auburn::col2d::*;
use auburn::shape_union;
use mckit::geo::{self, Diff, Ref, Sim};
use mckit::lib;

/// A user-defined shape that goes through the generic (iterative) queries: a segment along x swept by a disc.
#[derive(Debug, Clone)]
pub struct Capsule {
    pub half: f32,
    pub radius: f32,
}
impl ExtremePoint2d for Capsule {
    fn extreme_point(&self, d: Vec2) -> Vec2 {
        Vec2::new(self.half * d.x.signum(), 0.0) + self.radius * d.normalize_or_zero()
    }
}
impl<T: Transformation2d> ExtremePointT2d<T> for Capsule {}
impl DefaultMinkowski<Capsule> for Capsule {}
impl DefaultMinkowski<Box2d> for Capsule {}
impl DefaultMinkowski<Poly2d> for Capsule {}

shape_union!(Mine; Ball, Poly2d, Capsule);
shape_union!(Nest; Mine, Shape2d);

#[derive(Clone, Debug, PartialEq)]
pub enum Spec {
    Pt,
    Disc(f32),
    Boxy(f32, f32),
    Poly(String, Vec<[f32; 2]>),
    Cap(f32, f32),
    /// as a variant of the crate's shape enum
    U(Box<Spec>),
    /// as a variant of a user's shape enum
    M(Box<Spec>),
    /// as a variant of an enum of enums
    N(Box<Spec>),
}
use Spec::*;

impl Spec {
    pub fn poly(name: &str, p: &[[f32; 2]]) -> Spec {
        Poly(name.into(), p.to_vec())
    }
    pub fn scaled(&self, k: f32) -> Spec {
        match self {
            Pt => Pt,
            Disc(r) => Disc(r * k),
            Boxy(x, y) => Boxy(x * k, y * k),
            Poly(n, p) => Poly(n.clone(), p.iter().map(|q| [q[0] * k, q[1] * k]).collect()),
            Cap(h, r) => Cap(h * k, r * k),
            U(s) => U(Box::new(s.scaled(k))),
            M(s) => M(Box::new(s.scaled(k))),
            N(s) => N(Box::new(s.scaled(k))),
        }
    }
    pub fn reference(&self) -> Ref {
        match self {
            Pt => Ref::new(&[[0.0, 0.0]], 0.0),
            Disc(r) => Ref::new(&[[0.0, 0.0]], *r as f64),
            Boxy(x, y) => {
                let (x, y) = (*x as f64, *y as f64);
                Ref::new(&[[x, y], [-x, y], [x, -y], [-x, -y]], 0.0)
            }
            Poly(_, p) => Ref::new(&p.iter().map(|q| [q[0] as f64, q[1] as f64]).collect::<Vec<_>>(), 0.0),
            Cap(h, r) => Ref::new(&[[-*h as f64, 0.0], [*h as f64, 0.0]], *r as f64),
            U(s) | M(s) | N(s) => s.reference(),
        }
    }
    pub fn name(&self) -> String {
        match self {
            Pt => "point".into(),
            Disc(r) => format!("ball({r})"),
            Boxy(x, y) => format!("box({x},{y})"),
            Poly(n, p) => format!("poly:{n}({})", p.len()),
            Cap(h, r) => format!("capsule({h},{r})"),
            U(s) => format!("Shape2d::{}", s.name()),
            M(s) => format!("Mine::{}", s.name()),
            N(s) => format!("Nest::{}", s.name()),
        }
    }
    pub fn poly2d(&self) -> Poly2d {
        match self {
            Poly(_, p) => Poly2d::new(&p.iter().map(|q| Vec2::new(q[0], q[1])).collect::<Vec<_>>()),
            _ => panic!("not a polygon"),
        }
    }
    pub fn shape2d(&self) -> Shape2d {
        match self {
            Disc(r) => Shape2d::ball(*r),
            Boxy(x, y) => Shape2d::rect(*x, *y),
            Poly(..) => Shape2d::poly(&self.poly2d().points),
            _ => panic!("no such variant"),
        }
    }
    pub fn mine(&self) -> Mine {
        match self {
            Disc(r) => Mine::Ball(auburn::col2d::Ball::with_radius(*r)),
            Poly(..) => Mine::Poly2d(self.poly2d()),
            Cap(h, r) => Mine::Capsule(Capsule { half: *h, radius: *r }),
            _ => panic!("no such variant"),
        }
    }
    pub fn nest(&self) -> Nest {
        match self {
            Cap(..) => Nest::Mine(self.mine()),
            _ => Nest::Shape2d(self.shape2d()),
        }
    }
}

/// One placement: rotate by `a`, scale by `k`, move to `p`.
#[derive(Clone, Copy, Debug, PartialEq)]
pub struct Spot {
    pub a: f32,
    pub k: f32,
    pub p: [f32; 2],
}
impl Spot {
    pub const HOME: Spot = Spot { a: 0.0, k: 1.0, p: [0.0, 0.0] };
    pub fn sim(&self) -> Sim {
        Sim::new(self.a as f64, self.k as f64, [self.p[0] as f64, self.p[1] as f64])
    }
    pub fn coord(&self) -> f64 {
        geo::len([self.p[0] as f64, self.p[1] as f64])
    }
}

/// The transform types a placement can be written with.
#[derive(Clone, Copy, Debug, PartialEq)]
pub enum Kind {
    Vector,
    Translate,
    Axis,
    Full,
}
pub const KINDS: [Kind; 4] = [Kind::Full, Kind::Axis, Kind::Translate, Kind::Vector];
impl Kind {
    pub fn can(self, s: &Spot) -> bool {
        match self {
            Kind::Full => true,
            Kind::Axis => s.a == 0.0,
            _ => s.a == 0.0 && s.k == 1.0,
        }
    }
}

pub trait Rep: Transformation2d + Invertible + Composable + Sized {
    fn make(s: &Spot) -> Self;
}
impl Rep for Vec2 {
    fn make(s: &Spot) -> Self {
        Vec2::new(s.p[0], s.p[1])
    }
}
impl Rep for Translate2d {
    fn make(s: &Spot) -> Self {
        Translate2d::from(Vec2::new(s.p[0], s.p[1]))
    }
}
impl Rep for AxisTransform2d {
    fn make(s: &Spot) -> Self {
        AxisTransform2d::new(Vec2::new(s.p[0], s.p[1]), s.k)
    }
}
impl Rep for Transform2d {
    fn make(s: &Spot) -> Self {
        Transform2d { pos: Vec2::new(s.p[0], s.p[1]), rot: Rotor2d::from_angle(s.a), scale: Vec2::splat(s.k) }
    }
}

#[derive(Clone, Copy, Debug, PartialEq)]
pub enum Q {
    Coll,
    Pen,
    Dist,
    Sdfv,
    Sdf,
}

#[derive(Clone, Copy, Debug)]
pub enum Ans {
    Flag(bool),
    Maybe(Option<Vec2>),
    Both(bool, Vec2),
    Num(f32),
}

/// How a query is posed.
#[derive(Clone, Copy, Debug)]
pub enum How {
    /// relative placement of the second shape
    Rel(Spot),
    /// world placements; form 0 = collider values, 1 = tuples, 2 = collider and tuple, 3 = tuples that share a
    /// transform where both are placed alike
    World(u8, Spot, Spot),
}

pub trait Pair: Sync + Send {
    fn ra(&self) -> &Ref;
    fn rb(&self) -> &Ref;
    fn name(&self) -> String;
    fn has_sdf(&self) -> bool;
    /// handled by a formula (rather than the iterative search)
    fn closed(&self) -> bool;
    fn ask_raw(&self, kind: Kind, how: &How, q: Q) -> Ans;
    fn ask(&self, kind: Kind, how: &How, q: Q) -> Result<Ans, String> {
        lib(
            match q {
                Q::Coll => "collides",
                Q::Pen => "penetrates",
                Q::Dist => "distance_to",
                Q::Sdfv => "sdfv",
                Q::Sdf => "sdf",
            },
            || self.ask_raw(kind, how, q),
        )
    }
    /// Support point of the Minkowski difference the iterative search works on.
    fn diff_extreme(&self, kind: Kind, rel: &Spot, d: Vec2) -> Result<Vec2, String>;
    fn size(&self) -> f64 {
        self.ra().size() + self.rb().size()
    }
}

fn diff_t<A: ExtremePoint2d, B: ExtremePoint2d, T: Rep>(a: &A, b: &B, rel: &Spot, d: Vec2) -> Vec2 {
    use auburn::col2d::local_minkowski_diff::LocalMinkowskiDiff2d;
    LocalMinkowskiDiff2d::raw(a, b, &T::make(rel)).extreme_point(d)
}

/// One shape, alone.
pub trait Solo: Sync + Send {
    fn reference(&self) -> &Ref;
    fn name(&self) -> &str;
    fn extreme(&self, d: Vec2) -> Result<Vec2, String>;
    /// with a transform: as a method of the shape, and of a collider
    fn extreme_t(&self, kind: Kind, s: &Spot, d: Vec2) -> Result<[Vec2; 2], String>;
}
struct One<A> {
    a: A,
    r: Ref,
    name: String,
}
fn ext_t<A: ExtremePointT2d<T>, T: Rep>(a: &A, s: &Spot, d: Vec2) -> [Vec2; 2] {
    let t = T::make(s);
    [a.extreme_point_t(&t, d), Collider2d::new(a, &t).extreme_point(d)]
}
impl<A> Solo for One<A>
where
    A: Sync
        + Send
        + ExtremePoint2d
        + ExtremePointT2d<Vec2>
        + ExtremePointT2d<Translate2d>
        + ExtremePointT2d<AxisTransform2d>
        + ExtremePointT2d<Transform2d>,
{
    fn reference(&self) -> &Ref {
        &self.r
    }
    fn name(&self) -> &str {
        &self.name
    }
    fn extreme(&self, d: Vec2) -> Result<Vec2, String> {
        lib("extreme_point", || self.a.extreme_point(d))
    }
    fn extreme_t(&self, kind: Kind, s: &Spot, d: Vec2) -> Result<[Vec2; 2], String> {
        lib("extreme_point_t", || match kind {
            Kind::Vector => ext_t::<A, Vec2>(&self.a, s, d),
            Kind::Translate => ext_t::<A, Translate2d>(&self.a, s, d),
            Kind::Axis => ext_t::<A, AxisTransform2d>(&self.a, s, d),
            Kind::Full => ext_t::<A, Transform2d>(&self.a, s, d),
        })
    }
}
pub fn solo(x: &Spec) -> Box<dyn Solo> {
    let (r, name) = (x.reference(), x.name());
    match x {
        Pt => Box::new(One { a: Point, r, name }),
        Disc(q) => Box::new(One { a: Ball::with_radius(*q), r, name }),
        Boxy(a, b) => Box::new(One { a: Box2d::with_halfdims(*a, *b), r, name }),
        Poly(..) => Box::new(One { a: x.poly2d(), r, name }),
        Cap(h, q) => Box::new(One { a: Capsule { half: *h, radius: *q }, r, name }),
        U(s) => Box::new(One { a: s.shape2d(), r, name }),
        M(s) => Box::new(One { a: s.mine(), r, name }),
        N(s) => Box::new(One { a: s.nest(), r, name }),
    }
}
/// Every catalogue shape once.
pub fn solos() -> Vec<Spec> {
    let mut v: Vec<Spec> = vec![];
    for (x, y) in catalogue() {
        for s in [x, y] {
            if !v.contains(&s) {
                v.push(s);
            }
        }
    }
    v
}

trait All<B, T: Transformation2d>:
    CollidesRel2d<B, T> + PenetratesRel2d<B, T> + DistanceToRel2d<B, T> + SdfvRel2d<B, T>
{
}
impl<A, B, T: Transformation2d> All<B, T> for A where
    A: CollidesRel2d<B, T> + PenetratesRel2d<B, T> + DistanceToRel2d<B, T> + SdfvRel2d<B, T>
{
}

type SdfFn<A, B> = fn(&A, &B, Kind, &How) -> f32;

struct Two<A, B> {
    a: A,
    b: B,
    ra: Ref,
    rb: Ref,
    name: String,
    closed: bool,
    sdf: Option<SdfFn<A, B>>,
    /// the first object plays both parts
    same: bool,
}
impl<A: 'static, B: 'static> Two<A, B> {
    fn second(&self) -> &B {
        if self.same {
            (&self.a as &dyn std::any::Any).downcast_ref().expect("both of one type")
        } else {
            &self.b
        }
    }
}

fn ask_t<A: All<B, T>, B, T: Rep>(a: &A, b: &B, how: &How, q: Q) -> Ans {
    match how {
        How::Rel(s) => {
            let t = T::make(s);
            match q {
                Q::Coll => Ans::Flag(a.collides_rel(b, &t)),
                Q::Pen => Ans::Maybe(a.penetrates_rel(b, &t)),
                Q::Dist => Ans::Maybe(a.distance_to_rel(b, &t)),
                Q::Sdfv => {
                    let (c, v) = a.sdfv_rel(b, &t);
                    Ans::Both(c, v)
                }
                Q::Sdf => unreachable!(),
            }
        }
        How::World(form, sa, sb) => {
            let (ta, tb) = (T::make(sa), T::make(sb));
            let both = |(c, v)| Ans::Both(c, v);
            if *form == 0 {
                let (x, y) = (Collider2d::new(a, &ta), Collider2d::new(b, &tb));
                match q {
                    Q::Coll => Ans::Flag(Collides2d::<A, B, T, _>::collides(x, y)),
                    Q::Pen => Ans::Maybe(Penetrates2d::<A, B, T, _>::penetrates(x, y)),
                    Q::Dist => Ans::Maybe(DistanceTo2d::<A, B, T, _>::distance_to(x, y)),
                    Q::Sdfv => both(Sdfv2d::<A, B, T, _>::sdfv(x, y)),
                    Q::Sdf => unreachable!(),
                }
            } else if *form & 1 == 1 {
                let (x, y) = ((a, &ta), (b, if *form == 3 && sa == sb { &ta } else { &tb }));
                match q {
                    Q::Coll => Ans::Flag(Collides2d::<A, B, T, _>::collides(x, y)),
                    Q::Pen => Ans::Maybe(Penetrates2d::<A, B, T, _>::penetrates(x, y)),
                    Q::Dist => Ans::Maybe(DistanceTo2d::<A, B, T, _>::distance_to(x, y)),
                    Q::Sdfv => both(Sdfv2d::<A, B, T, _>::sdfv(x, y)),
                    Q::Sdf => unreachable!(),
                }
            } else {
                let (x, y) = (Collider2d::from((a, &ta)).clone(), (b, &tb));
                match q {
                    Q::Coll => Ans::Flag(Collides2d::<A, B, T, _>::collides(x, y)),
                    Q::Pen => Ans::Maybe(Penetrates2d::<A, B, T, _>::penetrates(x, y)),
                    Q::Dist => Ans::Maybe(DistanceTo2d::<A, B, T, _>::distance_to(x, y)),
                    Q::Sdfv => both(Sdfv2d::<A, B, T, _>::sdfv(x, y)),
                    Q::Sdf => unreachable!(),
                }
            }
        }
    }
}

fn sdf_t<A: SdfRel2d<B>, B, T: Rep>(a: &A, b: &B, how: &How) -> f32 {
    match how {
        How::Rel(s) => a.sdf_rel(b, &T::make(s)),
        How::World(form, sa, sb) => {
            let (ta, tb) = (T::make(sa), T::make(sb));
            match form {
                0 => Sdf2d::<A, B, T, _>::sdf(Collider2d::new(a, &ta), Collider2d::new(b, &tb)),
                1 => Sdf2d::<A, B, T, _>::sdf((a, &ta), (b, &tb)),
                _ => Sdf2d::<A, B, T, _>::sdf(Collider2d::new(a, &ta), (b, &tb)),
            }
        }
    }
}

fn sdf_any<A: SdfRel2d<B>, B>(a: &A, b: &B, kind: Kind, how: &How) -> f32 {
    match kind {
        Kind::Vector => sdf_t::<A, B, Vec2>(a, b, how),
        Kind::Translate => sdf_t::<A, B, Translate2d>(a, b, how),
        Kind::Axis => sdf_t::<A, B, AxisTransform2d>(a, b, how),
        Kind::Full => sdf_t::<A, B, Transform2d>(a, b, how),
    }
}

impl<A, B> Pair for Two<A, B>
where
    A: 'static + Sync + Send + ExtremePoint2d + All<B, Vec2> + All<B, Translate2d> + All<B, AxisTransform2d> + All<B, Transform2d>,
    B: 'static + Sync + Send + ExtremePoint2d,
{
    fn diff_extreme(&self, kind: Kind, rel: &Spot, d: Vec2) -> Result<Vec2, String> {
        lib("extreme_point of the difference", || match kind {
            Kind::Vector => diff_t::<A, B, Vec2>(&self.a, self.second(), rel, d),
            Kind::Translate => diff_t::<A, B, Translate2d>(&self.a, self.second(), rel, d),
            Kind::Axis => diff_t::<A, B, AxisTransform2d>(&self.a, self.second(), rel, d),
            Kind::Full => diff_t::<A, B, Transform2d>(&self.a, self.second(), rel, d),
        })
    }
    fn ra(&self) -> &Ref {
        &self.ra
    }
    fn rb(&self) -> &Ref {
        &self.rb
    }
    fn name(&self) -> String {
        self.name.clone()
    }
    fn has_sdf(&self) -> bool {
        self.sdf.is_some()
    }
    fn closed(&self) -> bool {
        self.closed
    }
    fn ask_raw(&self, kind: Kind, how: &How, q: Q) -> Ans {
        if q == Q::Sdf {
            return Ans::Num(self.sdf.expect("pair without sdf")(&self.a, self.second(), kind, how));
        }
        match kind {
            Kind::Vector => ask_t::<A, B, Vec2>(&self.a, self.second(), how, q),
            Kind::Translate => ask_t::<A, B, Translate2d>(&self.a, self.second(), how, q),
            Kind::Axis => ask_t::<A, B, AxisTransform2d>(&self.a, self.second(), how, q),
            Kind::Full => ask_t::<A, B, Transform2d>(&self.a, self.second(), how, q),
        }
    }
}

/// The pair of shapes, if the crate supports queries between them in this order.
pub fn pair(x: &Spec, y: &Spec) -> Option<Box<dyn Pair>> {
    objects(x, y, false)
}
/// A shape against itself: one object plays both parts.
pub fn same(x: &Spec) -> Option<Box<dyn Pair>> {
    objects(x, x, true)
}
fn objects(x: &Spec, y: &Spec, same: bool) -> Option<Box<dyn Pair>> {
    let name = format!("{} v {}", x.name(), y.name());
    let (ra, rb) = (x.reference(), y.reference());
    macro_rules! two {
        ($a:expr, $b:expr, $closed:expr, $sdf:expr) => {
            Some(Box::new(Two { a: $a, b: $b, ra, rb, name, closed: $closed, sdf: $sdf, same }) as Box<dyn Pair>)
        };
    }
    use auburn::col2d::{Ball as B, Box2d as X, Point as P};
    match (x, y) {
        (Pt, Pt) => two!(P, P, true, Some(sdf_any)),
        (Pt, Disc(r)) => two!(P, B::new(*r), true, None),
        (Pt, Boxy(a, b)) => two!(P, X::with_halfdims(*a, *b), true, None),
        (Disc(r), Pt) => two!(B::new(*r), P, true, Some(sdf_any)),
        (Disc(r), Disc(s)) => two!(B::new(*r), B::new(*s), true, Some(sdf_any)),
        (Disc(r), Boxy(a, b)) => two!(B::new(*r), X::with_halfdims(*a, *b), false, None),
        (Boxy(a, b), Pt) => two!(X::with_halfdims(*a, *b), P, true, Some(sdf_any)),
        (Boxy(a, b), Disc(r)) => two!(X::with_halfdims(*a, *b), B::new(*r), true, Some(sdf_any)),
        (Boxy(a, b), Boxy(c, d)) => two!(X::with_halfdims(*a, *b), X::with_halfdims(*c, *d), false, None),
        (Boxy(a, b), Poly(..)) => two!(X::with_halfdims(*a, *b), y.poly2d(), false, None),
        (Poly(..), Boxy(a, b)) => two!(x.poly2d(), X::with_halfdims(*a, *b), false, None),
        (Poly(..), Poly(..)) => two!(x.poly2d(), y.poly2d(), false, None),
        (Cap(h, r), Cap(i, s)) => {
            two!(Capsule { half: *h, radius: *r }, Capsule { half: *i, radius: *s }, false, None)
        }
        (Cap(h, r), Boxy(a, b)) => two!(Capsule { half: *h, radius: *r }, X::with_halfdims(*a, *b), false, None),
        (Cap(h, r), Poly(..)) => two!(Capsule { half: *h, radius: *r }, y.poly2d(), false, None),
        (U(a), U(b)) => two!(a.shape2d(), b.shape2d(), false, None),
        (M(a), M(b)) => two!(a.mine(), b.mine(), false, None),
        (N(a), N(b)) => two!(a.nest(), b.nest(), false, None),
        _ => None,
    }
}

pub fn regular(n: usize, r: f32, phase: f64) -> Vec<[f32; 2]> {
    (0..n)
        .map(|i| {
            let a = std::f64::consts::TAU * i as f64 / n as f64 + phase;
            [(r as f64 * a.cos()) as f32, (r as f64 * a.sin()) as f32]
        })
        .collect()
}

pub fn balls() -> Vec<Spec> {
    [0.5, 1.25, 0.01, 50.0].map(Disc).to_vec()
}
pub fn boxes() -> Vec<Spec> {
    vec![Boxy(0.5, 0.5), Boxy(2.0, 0.5), Boxy(0.02, 3.0), Boxy(60.0, 40.0)]
}
pub fn polys() -> Vec<Spec> {
    vec![
        Spec::poly("right", &[[-1.0, -1.0], [1.0, -1.0], [-1.0, 2.0]]),
        Spec::poly("triangle", &regular(3, 1.0, std::f64::consts::FRAC_PI_2)),
        Spec::poly("pentagon", &regular(5, 1.0, 0.0)),
        Spec::poly("octagon", &regular(8, 1.25, 0.2)),
        Spec::poly("32-gon", &regular(32, 1.0, 0.0)),
        Spec::poly("64-gon", &regular(64, 1.3, 0.01)),
        // clockwise, skewed
        Spec::poly("quad", &[[-0.7, 0.4], [0.2, 1.1], [1.6, -0.1], [0.3, -0.9]]),
        // thin, origin near an edge
        Spec::poly("sliver", &[[-2.0, -0.01], [2.0, -0.02], [0.1, 0.2]]),
        // box in the order the crate's own conversion uses
        Spec::poly("box", &[[-0.8, -0.3], [0.8, 0.3], [-0.8, 0.3], [0.8, -0.3]]),
        // far from centred
        Spec::poly("lopsided", &[[-0.05, -0.05], [5.0, -0.1], [4.0, 3.0], [-0.1, 2.0]]),
        // duplicated and collinear points
        Spec::poly("redundant", &[[-1.0, -1.0], [0.0, -1.0], [1.0, -1.0], [1.0, 1.0], [1.0, 1.0], [0.0, 1.0], [-1.0, 1.0], [-1.0, 0.0]]),
        // many points, in no order, some twice, some within
        Spec::poly("pile", &pile(11, 1.1)),
        Spec::poly("120-gon", &regular(120, 2.0, 0.3)),
        Spec::poly("260-gon", &regular(260, 1.7, 0.1)),
    ]
}
/// `n` points around the origin, each again, and points within, in an order that jumps about.
pub fn pile(n: usize, r: f32) -> Vec<[f32; 2]> {
    let out: Vec<[f32; 2]> = regular(n, r, 0.17).into_iter().enumerate().map(|(i, p)| if i % 3 == 1 { [p[0] * 1.3, p[1]] } else { p }).collect();
    let mut all = out.clone();
    all.extend(out.iter().map(|p| [p[0] * 0.4, p[1] * 0.4]));
    all.extend(out);
    let m = all.len();
    let step = (m / 3..).find(|s| (2..=*s).all(|d| s % d > 0 || m % d > 0)).unwrap();
    (0..m).map(|i| all[i * step % m]).collect()
}
fn shape2ds() -> Vec<Spec> {
    let p = polys();
    vec![Disc(0.5), Disc(0.01), Disc(50.0), Boxy(2.0, 0.5), Boxy(0.5, 0.5), p[0].clone(), p[3].clone(), p[7].clone()]
}

/// Every ordered pair of catalogue shapes that the crate supports.
pub fn catalogue() -> Vec<(Spec, Spec)> {
    let mut plain = vec![Pt];
    plain.extend(balls());
    plain.extend(boxes());
    plain.extend(polys());
    plain.extend([Cap(1.0, 0.3), Cap(0.2, 2.0)]);
    let mut out = vec![];
    let mut all = |l: &[Spec]| {
        for x in l {
            for y in l {
                if pair(x, y).is_some() {
                    out.push((x.clone(), y.clone()));
                }
            }
        }
    };
    all(&plain);
    all(&shape2ds().into_iter().map(|s| U(Box::new(s))).collect::<Vec<_>>());
    let p = polys();
    all(&[Disc(1.25), p[2].clone(), Cap(0.5, 0.25)].map(|s| M(Box::new(s))));
    all(&[Disc(0.75), Boxy(1.5, 0.4), Cap(0.5, 0.25)].map(|s| N(Box::new(s))));
    out
}

/// A query situation together with its reference geometry.
pub struct Case<'a> {
    pub pair: &'a dyn Pair,
    pub kind: Kind,
    pub how: How,
    diff: DiffRef<'a>,
    /// difference of the placed shapes is `diff` shifted by this
    shift: [f64; 2],
    /// combined size of the shapes in the frame of the answer
    pub size: f64,
    /// rounding unit: error to expect from one operation on the coordinates involved
    pub ulp: f64,
}
enum DiffRef<'a> {
    Own(Diff),
    Shared(&'a Diff),
}

impl<'a> Case<'a> {
    pub fn shared(pair: &'a dyn Pair, kind: Kind, rel: Spot, diff: &'a Diff) -> Case<'a> {
        let size = pair.ra().size() + pair.rb().size() * rel.k as f64;
        let shift = [-rel.p[0] as f64, -rel.p[1] as f64];
        Case { pair, kind, how: How::Rel(rel), diff: DiffRef::Shared(diff), shift, size, ulp: 6e-8 * (size + rel.coord()) }
    }
    pub fn relative(pair: &'a dyn Pair, kind: Kind, rel: Spot) -> Case<'a> {
        let size = pair.ra().size() + pair.rb().size() * rel.k as f64;
        let diff = DiffRef::Own(Diff::new(pair.ra(), &pair.rb().place(&rel.sim())));
        Case { pair, kind, how: How::Rel(rel), diff, shift: [0.0; 2], size, ulp: 6e-8 * (size + rel.coord()) }
    }
    pub fn world(pair: &'a dyn Pair, kind: Kind, form: u8, ta: Spot, tb: Spot) -> Case<'a> {
        let size = pair.ra().size() * ta.k as f64 + pair.rb().size() * tb.k as f64;
        // place both relative to the first one's position, which keeps the reference exact far from the origin
        let d = [tb.p[0] as f64 - ta.p[0] as f64, tb.p[1] as f64 - ta.p[1] as f64];
        let (sa, sb) = (Sim { p: [0.0; 2], ..ta.sim() }, Sim { p: d, ..tb.sim() });
        let diff = DiffRef::Own(Diff::new(&pair.ra().place(&sa), &pair.rb().place(&sb)));
        let ulp = 6e-8 * (size + 4.0 * (ta.coord() + tb.coord()));
        Case { pair, kind, how: How::World(form, ta, tb), diff, shift: [0.0; 2], size, ulp }
    }
    /// Signed distance between the shapes once the first is moved by `v`.
    pub fn sd_after(&self, v: [f64; 2]) -> f64 {
        let w = [v[0] + self.shift[0], v[1] + self.shift[1]];
        match &self.diff {
            DiffRef::Own(d) => d.sd_after(w),
            DiffRef::Shared(d) => d.sd_after(w),
        }
    }
    pub fn sd(&self) -> f64 {
        self.sd_after([0.0; 2])
    }
    pub fn ask(&self, q: Q) -> Result<Ans, String> {
        self.pair.ask(self.kind, &self.how, q)
    }
    /// |signed distance| below which either verdict is accepted
    pub fn band(&self) -> f64 {
        BAND * self.size + 32.0 * self.ulp
    }
    /// Allowed error of a vector or distance whose exact length is `s`.
    pub fn tol(&self, s: f64) -> f64 {
        if self.pair.closed() {
            1e-5 * self.size + 32.0 * self.ulp
        } else {
            ITER_REL * s.abs() + ITER_ABS * self.size + 64.0 * self.ulp
        }
    }
    /// A returned vector must be finite, have the length of the signed distance, and bring the shapes into contact.
    pub fn judge_vector(&self, what: &str, v: Vec2, s: f64) -> Result<f64, String> {
        mckit::cmp();
        if !v.is_finite() {
            return Err(format!("{what} returned the non-finite vector {v:?} (signed distance is {s:.7})"));
        }
        let w = [v.x as f64, v.y as f64];
        let (l, after, tol) = (geo::len(w), self.sd_after(w), self.tol(s));
        if (l - s.abs()).abs() > tol {
            return Err(format!("{what} returned {v:?} of length {l:.7}, but the signed distance is {s:.7}"));
        }
        if after.abs() > tol {
            return Err(format!(
                "{what} returned {v:?}, which leaves the shapes at signed distance {after:.7} instead of touching (it was {s:.7})"
            ));
        }
        Ok(l)
    }
    pub fn describe(&self) -> String {
        format!("{} {:?} {:?} (signed distance {:.6})", self.pair.name(), self.kind, self.how, self.sd())
    }
}

pub const BAND: f64 = 5e-5;
pub const ITER_REL: f64 = 0.02;
pub const ITER_ABS: f64 = 1e-4;
/// Combined size of two shapes from which on the properties are claimed: cubes of coordinates must not underflow f32.
pub const SMALLEST: f64 = 1e-4;
