//! C12: 2D transforms form a group action.
//!
//! Every word over {compose on either side with a generator, inverse, difference in either order} up to a depth is
//! executed on the real transform types next to an f64 similarity that carries a bound of the rounding so far.
use crate::scene::*;
use auburn::col2d::*;
use mckit::geo::{self, Sim};
use mckit::{ensure, lib, Run};

type V = [f64; 2];
const EPS: f64 = 4.8e-7;

/// Reference similarity with bounds of the rounding error an f32 computation of it may have.
#[derive(Clone, Copy)]
struct Model {
    t: Sim,
    /// relative error of rotation and scale
    ek: f64,
    /// absolute error of the position
    ep: f64,
}

impl Model {
    fn new(s: &Spot) -> Model {
        Model { t: s.sim(), ek: 2.0 * EPS, ep: EPS * s.coord() }
    }
    fn compose(&self, o: &Model) -> Model {
        let t = self.t.then(&o.t);
        let l = self.t.k * geo::len(o.t.p);
        Model {
            t,
            ek: self.ek + o.ek + 3.0 * EPS,
            ep: self.t.k * o.ep + l * (self.ek + 4.0 * EPS) + self.ep + EPS * (geo::len(self.t.p) + l),
        }
    }
    fn inverse(&self) -> Model {
        let t = self.t.inverse();
        Model { t, ek: self.ek + 3.0 * EPS, ep: self.ep / self.t.k + geo::len(t.p) * (self.ek + 5.0 * EPS) }
    }
    fn usable(&self) -> bool {
        (1e-4..1e4).contains(&self.t.k) && geo::len(self.t.p) < 1e6
    }
}

const POINTS: [V; 8] = [[0.0, 0.0], [1.0, 0.0], [0.0, 1.0], [-3.0, 2.0], [250.0, -0.5], [1e-3, -7e-3], [-40.0, -7000.0], [0.6, 90.0]];

fn v32(p: V) -> Vec2 {
    Vec2::new(p[0] as f32, p[1] as f32)
}
fn v64(v: Vec2) -> V {
    [v.x as f64, v.y as f64]
}

fn near(what: impl std::fmt::Display, got: Vec2, want: V, tol: f64) -> Result<(), String> {
    let d = geo::len(geo::sub(v64(got), want));
    ensure!(got.is_finite() && d <= tol, "{what} is {got:?} instead of {want:?} (error {d:.2e}, allowed {tol:.2e})");
    Ok(())
}

/// Everything observable of a transform, against the model. Returns the bits observed.
fn observe<T: Transformation2d>(t: &T, m: &Model) -> Result<Vec<u8>, String> {
    let mut key = vec![];
    let mut bits = |v: Vec2| {
        key.extend(v.x.to_bits().to_le_bytes());
        key.extend(v.y.to_bits().to_le_bytes());
    };
    let (k, p0) = (m.t.k, geo::len(m.t.p));
    let o = lib("apply_origin", || t.apply_origin())?;
    bits(o);
    near("apply_origin", o, m.t.p, 2.0 * m.ep + 4.0 * EPS * p0)?;
    let inv = m.t.inverse();
    for (i, &p) in POINTS.iter().enumerate() {
        let p = v64(v32(p));
        let a = lib("apply", || t.apply(v32(p)))?;
        if i < 3 {
            bits(a);
        }
        let l = k * geo::len(p);
        near(format_args!("apply({p:?})"), a, m.t.apply(p), 2.0 * m.ep + 2.0 * l * m.ek + 6.0 * EPS * (l + p0))?;
        let u = lib("unapply", || t.unapply(v32(p)))?;
        let l = (geo::len(p) + p0) / k;
        near(format_args!("unapply({p:?})"), u, inv.apply(p), 2.0 * m.ep / k + 2.0 * l * m.ek + 8.0 * EPS * l)?;
        let n = lib("apply_normal", || t.apply_normal(v32(p)))?;
        near(format_args!("apply_normal({p:?})"), n, m.t.rot(p), (2.0 * m.ek + 6.0 * EPS) * geo::len(p))?;
        if i == 1 {
            bits(n);
        }
        let n = lib("unapply_normal", || t.unapply_normal(v32(p)))?;
        near(format_args!("unapply_normal({p:?})"), n, inv.rot(p), (2.0 * m.ek + 6.0 * EPS) * geo::len(p))?;
    }
    let f = lib("scaling_factor", || t.scaling_factor())?;
    key.extend(f.to_bits().to_le_bytes());
    ensure!((f as f64 - k).abs() <= k * (2.0 * m.ek + 4.0 * EPS), "scaling_factor is {f} instead of {k}");
    Ok(key)
}

fn generators(kind: Kind) -> Vec<Spot> {
    let s = |a, k, x, y| Spot { a, k, p: [x, y] };
    match kind {
        Kind::Full => vec![
            s(0.0, 1.0, 3.0, -2.0),
            s(1.5707964, 1.0, 0.0, 0.0),
            s(-0.7, 1.0, 0.5, 40.0),
            s(0.0, 2.0, 0.0, 0.0),
            s(2.2, 0.25, -7.0, 0.125),
            s(3.9, 3.0, 0.01, 0.3),
        ],
        Kind::Axis => {
            vec![s(0.0, 1.0, 3.0, -2.0), s(0.0, 2.0, 0.0, 0.0), s(0.0, 0.3, -7.0, 0.125), s(0.0, 5.0, 40.0, 0.3)]
        }
        _ => vec![s(0.0, 1.0, 3.0, -2.0), s(0.0, 1.0, 0.1, 0.7), s(0.0, 1.0, -250.0, 1e-3)],
    }
}

fn words<T: Rep + Default>(run: &mut Run, kind: Kind, depth: usize) {
    let gens = generators(kind);
    let n = gens.len();
    // 0: inverse; then for each generator: cur∘g, g∘cur, cur→g, g→cur
    let name = |op: usize| -> String {
        if op == 0 {
            return "inverse".into();
        }
        let g = &gens[(op - 1) % n];
        match (op - 1) / n {
            0 => format!("compose({g:?})"),
            1 => format!("{g:?}.compose(it)"),
            2 => format!("delta_transform({g:?})"),
            _ => format!("{g:?}.delta_transform(it)"),
        }
    };
    run.histories(
        &format!("words-{kind:?}"),
        1 + 4 * n,
        depth,
        &|h| format!("{kind:?}: default, {}", h.iter().map(|&o| name(o)).collect::<Vec<_>>().join(", ")),
        &|h| {
            let mut cur = lib("default", T::default)?;
            let mut m = Model { t: Sim::ID, ek: 0.0, ep: 0.0 };
            for &op in h {
                if op == 0 {
                    cur = lib("inverse", || cur.inverse())?;
                    m = m.inverse();
                    continue;
                }
                let s = &gens[(op - 1) % n];
                let (g, gm) = (T::make(s), Model::new(s));
                match (op - 1) / n {
                    0 => {
                        cur = lib("compose", || cur.compose(&g))?;
                        m = m.compose(&gm);
                    }
                    1 => {
                        cur = lib("compose", || g.compose(&cur))?;
                        m = gm.compose(&m);
                    }
                    2 => {
                        cur = lib("delta_transform", || cur.delta_transform(&g))?;
                        m = m.inverse().compose(&gm);
                    }
                    _ => {
                        cur = lib("delta_transform", || g.delta_transform(&cur))?;
                        m = gm.inverse().compose(&m);
                    }
                }
            }
            if !m.usable() {
                return Ok(None);
            }
            Ok(Some(observe(&cur, &m)?))
        },
    );
}

pub fn c12(run: &mut Run) {
    run.assume("words whose scale leaves 1e-4..1e4 or whose position leaves 1e6 are not extended");
    run.assume("f32 results are compared within a propagated bound of the rounding of the operations performed");
    let d = run.tier.pick(5, 6);
    words::<Transform2d>(run, Kind::Full, d);
    words::<AxisTransform2d>(run, Kind::Axis, run.tier.pick(5, 7));
    words::<Translate2d>(run, Kind::Translate, run.tier.pick(4, 6));
    words::<Vec2>(run, Kind::Vector, run.tier.pick(4, 6));
    // the laws as stated, for every pair of poses
    for kind in KINDS {
        let ps: Vec<Spot> = {
            let mut v = crate::domains::poses(kind);
            v.extend(generators(kind));
            v
        };
        run.lattice(
            &format!("laws-{kind:?}"),
            &[ps.len(), ps.len(), ps.len()],
            &|ix| format!("{:?} {:?} {:?}", ps[ix[0]], ps[ix[1]], ps[ix[2]]),
            &|ix| {
                let s = [&ps[ix[0]], &ps[ix[1]], &ps[ix[2]]];
                match kind {
                    Kind::Full => laws::<Transform2d>(s),
                    Kind::Axis => laws::<AxisTransform2d>(s),
                    Kind::Translate => laws::<Translate2d>(s),
                    Kind::Vector => laws::<Vec2>(s),
                }
            },
        );
    }
    // rotations all around, next to none and next to half a turn, and scales, one after the other
    let turns: Vec<f32> = {
        let n = run.tier.pick(16, 60);
        let mut v: Vec<f32> = (0..n).map(|i| i as f32 * 6.2831855 / n as f32 - 3.1415927).collect();
        v.extend([1e-6, -1e-4, 0.01, 1.57, 3.1414, -3.14, 3.2, 50.0]);
        v
    };
    let sizes = [1.0f32, 0.01, 0.999, 3.0, 80.0];
    let spot = |a: usize, k: usize, p: [f32; 2]| Spot { a: turns[a], k: sizes[k], p };
    run.lattice(
        "pairs",
        &[turns.len(), turns.len(), sizes.len(), sizes.len()],
        &|ix| format!("{:?} {:?}", spot(ix[0], ix[2], [3.0, -0.2]), spot(ix[1], ix[3], [-1.0, 20.0])),
        &|ix| {
            let (a, b) = (spot(ix[0], ix[2], [3.0, -0.2]), spot(ix[1], ix[3], [-1.0, 20.0]));
            laws::<Transform2d>([&a, &b, &a])
        },
    );
    // transforms of any magnitude, alone and two at a time
    let turns = [0.0f32, 0.7, -2.9];
    let sizes = [1.0f32, 1e-6, 2e-5, 4e-4, 0.003, 0.07, 17.0, 900.0, 3e4, 1e6];
    let places = [[0.0f32, 0.0], [3.0, -2.0], [-1e-3, 2e-4], [33.4, -0.017], [310.3, -77.7], [4e3, 7e4], [1e6, -1e6]];
    let all: Vec<Spot> = turns.iter().flat_map(|&a| sizes.iter().flat_map(move |&k| places.map(|p| Spot { a, k, p }))).collect();
    for kind in KINDS {
        let some: Vec<Spot> = all.iter().filter(|s| kind.can(s)).copied().collect();
        let many = some.len();
        run.lattice(
            &format!("magnitudes-{kind:?}"),
            &[many, many, 4],
            &|ix| format!("{} of {:?} and {:?}", ["the first", "inverse", "compose", "delta_transform"][ix[2]], some[ix[0]], some[ix[1]]),
            &|ix| {
                let (a, b) = (&some[ix[0]], &some[ix[1]]);
                if ix[2] < 2 && ix[1] > 0 {
                    return Ok("seen");
                }
                match kind {
                    Kind::Full => wide::<Transform2d>(a, b, ix[2]),
                    Kind::Axis => wide::<AxisTransform2d>(a, b, ix[2]),
                    Kind::Translate => wide::<Translate2d>(a, b, ix[2]),
                    Kind::Vector => wide::<Vec2>(a, b, ix[2]),
                }
            },
        );
    }
    // places and points of any magnitude and sign
    let any = |per: usize, most: usize| -> Vec<f32> {
        let m = (0..=most).map(move |i| 10f64.powf(-2.0 + i as f64 / per as f64) as f32);
        m.flat_map(|x| [x, -x]).chain([0.0]).collect()
    };
    let places: Vec<f32> = any(run.tier.pick(3, 6), run.tier.pick(22, 44));
    let points: Vec<f32> = any(run.tier.pick(2, 3), run.tier.pick(13, 20));
    let turns = [0.0f32, 0.7, -2.9];
    let sizes = [1.0f32, 0.02, 60.0];
    let (np, nq) = (places.len(), points.len());
    for kind in KINDS {
        let ways: Vec<(f32, f32)> = turns.iter().flat_map(|&a| sizes.map(|k| (a, k))).filter(|&(a, k)| kind.can(&Spot { a, k, p: [0.0; 2] })).collect();
        let spot = |ix: &[usize]| Spot { a: ways[ix[0]].0, k: ways[ix[0]].1, p: [places[ix[1]], places[ix[2]]] };
        run.lattice(
            &format!("reach-{kind:?}"),
            &[ways.len(), np, np, nq],
            &|ix| format!("{:?} of points {} ..", spot(ix), points[ix[3]]),
            &|ix| {
                let s = spot(ix);
                match kind {
                    Kind::Full => reach::<Transform2d>(&s, points[ix[3]], &points),
                    Kind::Axis => reach::<AxisTransform2d>(&s, points[ix[3]], &points),
                    Kind::Translate => reach::<Translate2d>(&s, points[ix[3]], &points),
                    Kind::Vector => reach::<Vec2>(&s, points[ix[3]], &points),
                }
            },
        );
    }
    // angles next to none, to a quarter, half and three quarters of a turn, and to a turn, near and far
    let little: Vec<f32> = {
        let n = run.tier.pick(24, 120);
        let close: Vec<f32> = (0..n).map(|i| 0.3 * 10f32.powf(-7.0 * i as f32 / n as f32)).collect();
        let axes = [0.0f32, 1.5707964, 3.1415927, -1.5707964, 6.2831855];
        axes.iter().flat_map(|&o| close.iter().flat_map(move |&d| [o - d, o + d]).chain([o])).collect()
    };
    let places = [[0.0f32, 0.0], [3.0, -0.2], [100.0, -250.0], [-2e4, 5e3], [1e-4, 3e-5]];
    let sizes = [1.0f32, 0.3, 40.0];
    let others = [Spot { a: 0.0, k: 1.0, p: [100.0, 20.0] }, Spot { a: -0.7, k: 2.0, p: [0.5, -40.0] }, Spot { a: 3e-4, k: 1.0, p: [0.0, 0.0] }];
    let spot = |ix: &[usize]| Spot { a: little[ix[0]], k: sizes[ix[1]], p: places[ix[2]] };
    run.lattice(
        "turned",
        &[little.len(), sizes.len(), places.len(), others.len(), 6],
        &|ix| {
            let op = ["the first", "inverse", "compose", "delta_transform", "compose the other way", "delta_transform the other way"][ix[4]];
            format!("{op} of {:?} and {:?}", spot(ix), others[ix[3]])
        },
        &|ix| {
            let (a, b) = (&spot(ix), &others[ix[3]]);
            if ix[4] < 2 && ix[3] > 0 {
                return Ok("seen");
            }
            match ix[4] {
                4 => wide::<Transform2d>(b, a, 2),
                5 => wide::<Transform2d>(b, a, 3),
                op => wide::<Transform2d>(a, b, op),
            }
        },
    );
    // scales next to one, near and far
    let hardly: Vec<f32> = {
        let n = run.tier.pick(24, 120);
        let close = (0..n).map(|i| 0.3 * 10f32.powf(-6.5 * i as f32 / n as f32));
        close.flat_map(|d| [1.0 - d, 1.0 + d]).collect()
    };
    let others = [Spot { a: 0.0, k: 1.0, p: [100.0, 20.0] }, Spot { a: 0.0, k: 2.0, p: [0.5, -40.0] }, Spot { a: 0.0, k: 0.9999, p: [0.0, 0.0] }];
    let angles = [0.0f32, 0.7, -1e-4];
    for kind in [Kind::Full, Kind::Axis] {
        let turns = if kind == Kind::Full { 3 } else { 1 };
        let spot = |ix: &[usize]| Spot { a: angles[ix[1]], k: hardly[ix[0]], p: places[ix[2]] };
        run.lattice(
            &format!("hardly-scaled-{kind:?}"),
            &[hardly.len(), turns, places.len(), others.len(), 6],
            &|ix| {
                let op = ["the first", "inverse", "compose", "delta_transform", "compose the other way", "delta_transform the other way"][ix[4]];
                format!("{op} of {:?} and {:?}", spot(ix), others[ix[3]])
            },
            &|ix| {
                let (a, b) = (&spot(ix), &others[ix[3]]);
                if ix[4] < 2 && ix[3] > 0 {
                    return Ok("seen");
                }
                let (x, y, op) = if ix[4] < 4 { (a, b, ix[4]) } else { (b, a, ix[4] - 2) };
                match kind {
                    Kind::Axis => wide::<AxisTransform2d>(x, y, op),
                    _ => wide::<Transform2d>(x, y, op),
                }
            },
        );
    }
    // a single transform with non-uniform scale, through every way to build it
    let pos = [[0.0f32, 0.0], [3.0, -2.0], [-0.01, 500.0]];
    let angles: Vec<f32> = (0..run.tier.pick(16, 90)).map(|i| i as f32 * 0.4189 - 2.0).chain([0.0, 1.5707964, 3.1415927]).collect();
    let scales = [1.0f32, 0.02, 0.5, 3.0, 40.0, -1.0, -0.3, 1e-4, 3e4];
    run.lattice(
        "single",
        &[pos.len(), angles.len(), scales.len(), scales.len(), 5],
        &|ix| format!("pos {:?} angle {} scale {} {} built in way {}", pos[ix[0]], angles[ix[1]], scales[ix[2]], scales[ix[3]], ix[4]),
        &|ix| {
            let (p, a, s) = (Vec2::from(pos[ix[0]]), angles[ix[1]], Vec2::new(scales[ix[2]], scales[ix[3]]));
            let t = lib("constructor", || match ix[4] {
                0 => Transform2d { pos: p, rot: Rotor2d::from_angle(a), scale: s },
                1 => Transform2d::from_translation(p).with_angle(a).with_scale(s),
                2 => Transform2d::from_angle(a).with_translation(p).with_scale(s),
                3 => Transform2d::from_scale(s).with_rotation(Rotor2d::from_angle(a)).with_translation(p),
                _ => Transform2d::from_rotation(Rotor2d::from_angle(a)).with_scale(s).with_translation(p),
            })?;
            let (c, n) = ((a as f64).cos(), (a as f64).sin());
            let rot = |v: V| [c * v[0] - n * v[1], n * v[0] + c * v[1]];
            let unrot = |v: V| [c * v[0] + n * v[1], c * v[1] - n * v[0]];
            let (p, s) = (v64(p), v64(s));
            let f = lib("scaling_factor", || t.scaling_factor())? as f64;
            ensure!(s[0] < 0.0 || s[1] < 0.0 || f == s[0].max(s[1]), "scaling_factor is {f} for {s:?}");
            let m = s[0].abs().max(s[1].abs());
            near("apply_origin", lib("apply_origin", || t.apply_origin())?, p, 0.0)?;
            for q in POINTS {
                let q = v64(v32(q));
                let want = geo::add(rot([s[0] * q[0], s[1] * q[1]]), p);
                let tol = 6.0 * EPS * (m * geo::len(q) + geo::len(p));
                near(format_args!("apply({q:?})"), lib("apply", || t.apply(v32(q)))?, want, tol)?;
                let d = unrot(geo::sub(q, p));
                let tol = 6.0 * EPS * (geo::len(q) + geo::len(p)) / s[0].abs().min(s[1].abs());
                let u = lib("unapply", || t.unapply(v32(q)))?;
                near(format_args!("unapply({q:?})"), u, [d[0] / s[0], d[1] / s[1]], tol)?;
                let there = lib("apply", || t.apply(u))?;
                near(format_args!("apply(unapply({q:?}))"), there, q, tol * m + 6.0 * EPS * (geo::len(q) + geo::len(p)))?;
                let tol = 4.0 * EPS * geo::len(q);
                near(format_args!("apply_normal({q:?})"), lib("apply_normal", || t.apply_normal(v32(q)))?, rot(q), tol)?;
                near(format_args!("unapply_normal({q:?})"), lib("unapply_normal", || t.unapply_normal(v32(q)))?, unrot(q), tol)?;
            }
            Ok("transform")
        },
    );
    run.lattice("identities", &[6], &|ix| format!("identity transform {}", ix[0]), &|ix| {
        let m = Model { t: Sim::ID, ek: 0.0, ep: 0.0 };
        match ix[0] {
            0 => observe(&IdentityTransform, &m),
            1 => observe(&Transform2d::default(), &m),
            2 => observe(&Transform2d::IDENTITY, &m),
            3 => observe(&AxisTransform2d::default(), &m),
            4 => observe(&Translate2d::default(), &m),
            _ => observe(&Translate2d::new(Vec2::ZERO), &m),
        }?;
        Ok("identity")
    });
}

/// Points through one transform and its inverse, there and back.
fn reach<T: Rep>(s: &Spot, x: f32, ys: &[f32]) -> mckit::Verdict {
    let (t, m) = (T::make(s), s.sim());
    let inv = lib("inverse", || t.inverse())?;
    let (k, p0) = (m.k, geo::len(m.p));
    let back = m.inverse();
    for &y in ys {
        let q = Vec2::new(x, y);
        let p = v64(q);
        let (to, from) = (12.0 * EPS * (k * geo::len(p) + p0), 14.0 * EPS * (geo::len(p) + p0) / k);
        near(format_args!("apply({q})"), lib("apply", || t.apply(q))?, m.apply(p), to)?;
        near(format_args!("unapply({q})"), lib("unapply", || t.unapply(q))?, back.apply(p), from)?;
        near(format_args!("inverse().apply({q})"), lib("apply", || inv.apply(q))?, back.apply(p), from)?;
        near(format_args!("inverse().unapply({q})"), lib("unapply", || inv.unapply(q))?, m.apply(p), 3.0 * to)?;
        let l = 8.0 * EPS * geo::len(p);
        near(format_args!("apply_normal({q})"), lib("apply_normal", || t.apply_normal(q))?, m.rot(p), l)?;
        near(format_args!("unapply_normal({q})"), lib("unapply_normal", || t.unapply_normal(q))?, back.rot(p), l)?;
    }
    Ok("points")
}

fn wide<T: Rep>(a: &Spot, b: &Spot, op: usize) -> mckit::Verdict {
    let (x, y, mx, my) = (T::make(a), T::make(b), Model::new(a), Model::new(b));
    let (t, m) = match op {
        0 => (x, mx),
        1 => (lib("inverse", || x.inverse())?, mx.inverse()),
        2 => (lib("compose", || x.compose(&y))?, mx.compose(&my)),
        _ => (lib("delta_transform", || x.delta_transform(&y))?, mx.inverse().compose(&my)),
    };
    observe(&t, &m)?;
    Ok("transform")
}

/// compose applies the parts in turn, inverse undoes on both sides, the difference composes a into b; associativity.
fn laws<T: Rep>(s: [&Spot; 3]) -> mckit::Verdict {
    let [a, b, c] = s.map(|x| T::make(x));
    let [ma, mb, mc] = s.map(Model::new);
    let scale = s.iter().map(|x| x.coord()).sum::<f64>() + 1.0;
    for p in POINTS {
        let q = v32(p);
        let l = geo::len(p) + scale;
        let ab = lib("compose", || a.compose(&b))?;
        let all = ma.compose(&mb);
        let tol = |m: &Model| 4.0 * (m.ep + (m.ek + 8.0 * EPS) * (m.t.k * l + geo::len(m.t.p)));
        let (x, y) = (lib("apply", || ab.apply(q))?, lib("apply", || a.apply(b.apply(q)))?);
        near("composition", x, v64(y), tol(&all) + 8.0 * EPS * ma.t.k * l)?;
        let inv = lib("inverse", || a.inverse())?;
        let k = ma.t.k.max(1.0 / ma.t.k);
        let one = 40.0 * EPS * l * k;
        near("inverse after", lib("apply", || inv.apply(a.apply(q)))?, v64(q), one)?;
        near("inverse before", lib("apply", || a.apply(inv.apply(q)))?, v64(q), one)?;
        near("unapply after", lib("unapply", || a.unapply(a.apply(q)))?, v64(q), one)?;
        let d = lib("delta_transform", || a.delta_transform(&b))?;
        let (x, y) = (lib("apply", || a.compose(&d).apply(q))?, lib("apply", || b.apply(q))?);
        near("composition with the difference", x, v64(y), 40.0 * EPS * l * (k + mb.t.k) * k)?;
        let (x, y) = (lib("compose", || ab.compose(&c))?, lib("compose", || a.compose(&b.compose(&c)))?);
        let abc = ma.compose(&mb.compose(&mc));
        near("association", x.apply(q), v64(y.apply(q)), 2.0 * tol(&abc) + 8.0 * EPS * ma.t.k * mb.t.k * l)?;
    }
    Ok("laws")
}
