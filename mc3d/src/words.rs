//! C24: 3D transforms form a group action.
use crate::space::*;
use crate::with_kind;
use auburn::col3d::*;
use mckit::{ensure, lib, Run};

#[derive(Clone, Copy)]
struct Model {
    t: Sim,
    /// relative error of rotation and scale
    ek: f64,
    /// absolute error of the position
    ep: f64,
}

impl Model {
    fn new(s: &Spot) -> Model {
        Model { t: s.sim(), ek: 6.0 * EPS, ep: 0.0 }
    }
    fn compose(&self, o: &Model) -> Model {
        let l = self.t.k * len(o.t.p);
        Model {
            t: self.t.then(&o.t),
            ek: self.ek + o.ek + 8.0 * EPS,
            ep: self.t.k * o.ep + l * (self.ek + 10.0 * EPS) + self.ep + 2.0 * EPS * (len(self.t.p) + l),
        }
    }
    fn inverse(&self) -> Model {
        let t = self.t.inverse();
        Model { t, ek: self.ek + 3.0 * EPS, ep: self.ep / self.t.k + len(t.p) * (self.ek + 12.0 * EPS) }
    }
    fn usable(&self) -> bool {
        (1e-4..1e4).contains(&self.t.k) && len(self.t.p) < 1e6
    }
}

const POINTS: [V; 9] = [
    [0.0, 0.0, 0.0],
    [1.0, 0.0, 0.0],
    [0.0, 1.0, 0.0],
    [0.0, 0.0, 1.0],
    [-3.0, 2.0, 0.25],
    [250.0, -0.5, 31.0],
    [1e-3, -7e-3, 4e-3],
    [-40.0, 13.0, -300.0],
    [2.0, -900.0, -0.7],
];

fn near(what: impl std::fmt::Display, got: Vec3, want: V, tol: f64) -> Result<(), String> {
    let d = len(sub(v64(got), want));
    ensure!(got.is_finite() && d <= tol, "{what} is {got:?} instead of {want:?} (error {d:.2e}, allowed {tol:.2e})");
    Ok(())
}

fn observe<T: Transformation3d>(t: &T, m: &Model) -> Result<Vec<u8>, String> {
    let mut key = vec![];
    let mut bits = |v: Vec3| v.to_array().iter().for_each(|x| key.extend(x.to_bits().to_le_bytes()));
    let (k, p0) = (m.t.k, len(m.t.p));
    let o = lib("apply_origin", || t.apply_origin())?;
    bits(o);
    near("apply_origin", o, m.t.p, 2.0 * m.ep + 6.0 * EPS * p0)?;
    let inv = m.t.inverse();
    let tol_un = |p: V| {
        let l = (len(p) + p0) / k;
        2.0 * m.ep / k + 2.0 * l * m.ek + 16.0 * EPS * l
    };
    let u = lib("unapply_origin", || t.unapply_origin())?;
    near("unapply_origin", u, inv.p, tol_un([0.0; 3]))?;
    for (i, &p) in POINTS.iter().enumerate() {
        let p = v64(v32(p));
        let a = lib("apply", || t.apply(v32(p)))?;
        if i < 4 {
            bits(a);
        }
        let l = k * len(p);
        near(format_args!("apply({p:?})"), a, m.t.apply(p), 2.0 * m.ep + 2.0 * l * m.ek + 12.0 * EPS * (l + p0))?;
        let u = lib("unapply", || t.unapply(v32(p)))?;
        near(format_args!("unapply({p:?})"), u, inv.apply(p), tol_un(p))?;
    }
    Ok(key)
}

fn generators(kind: Kind) -> Vec<Spot> {
    let z = [0.0, 0.0, 1.0];
    let mut v = vec![Spot::new(z, 0.0, 1.0, [3.0, -2.0, 0.5]), Spot::new(z, 0.0, 1.0, [0.1, 250.0, -40.0])];
    if kind.scales() {
        v.push(Spot::new(z, 0.0, 2.0, [0.0; 3]));
        v.push(Spot::new(z, 0.0, 0.3, [-7.0, 0.125, 11.0]));
    }
    if kind.turns() {
        v.truncate(3);
        v.push(Spot::new([1.0, 0.0, 0.0], std::f64::consts::FRAC_PI_2, 1.0, [0.0; 3]));
        v.push(Spot::new([1.0, -2.0, 0.5], 2.2, 0.25, [-7.0, 0.125, 2.0]));
        v.push(Spot::new([0.0, 3.0, -1.0], -0.7, 3.0, [0.5, 40.0, -3.0]));
    }
    v
}

fn words<T: Rep>(run: &mut Run, kind: Kind, depth: usize) {
    let gens = generators(kind);
    let n = gens.len();
    let name = |op: usize| -> String {
        if op == 0 {
            return "inverse".into();
        }
        let g = &gens[(op - 1) % n];
        match (op - 1) / n {
            0 => format!("compose({g:?})"),
            1 => format!("{g:?}.compose(it)"),
            2 => format!("delta_transform({g:?})"),
            _ => format!("{g:?}.delta_transform(it)"),
        }
    };
    run.histories(
        &format!("words-{kind:?}"),
        1 + 4 * n,
        depth,
        &|h| format!("{kind:?}: default, {}", h.iter().map(|&o| name(o)).collect::<Vec<_>>().join(", ")),
        &|h| {
            let mut cur = lib("default", T::default)?;
            let mut m = Model { t: Sim::ID, ek: 0.0, ep: 0.0 };
            for &op in h {
                if op == 0 {
                    cur = lib("inverse", || cur.inverse())?;
                    m = m.inverse();
                    continue;
                }
                let s = &gens[(op - 1) % n];
                let (g, gm) = (lib("constructor", || T::make(s))?, Model::new(s));
                match (op - 1) / n {
                    0 => {
                        cur = lib("compose", || cur.compose(&g))?;
                        m = m.compose(&gm);
                    }
                    1 => {
                        cur = lib("compose", || g.compose(&cur))?;
                        m = gm.compose(&m);
                    }
                    2 => {
                        cur = lib("delta_transform", || cur.delta_transform(&g))?;
                        m = m.inverse().compose(&gm);
                    }
                    _ => {
                        cur = lib("delta_transform", || g.delta_transform(&cur))?;
                        m = gm.inverse().compose(&m);
                    }
                }
            }
            if !m.usable() {
                return Ok(None);
            }
            Ok(Some(observe(&cur, &m)?))
        },
    );
}

pub fn poses(kind: Kind) -> Vec<Spot> {
    let mut v = generators(kind);
    let ks: &[f32] = if kind.scales() { &[1.0, 0.1, 4.0] } else { &[1.0] };
    let turns: Vec<(V, f64)> = if kind.turns() {
        vec![([0.0, 0.0, 1.0], 1.0), ([0.0, 1.0, 0.0], std::f64::consts::PI), ([1.0, 1.0, 1.0], 2.0943951023931953), ([-0.3, 0.2, 1.0], -2.5)]
    } else {
        vec![([0.0, 0.0, 1.0], 0.0)]
    };
    for &k in ks {
        for &(a, t) in &turns {
            for p in [[0.0, 0.0, 0.0], [-1.5, 0.5, 20.0]] {
                v.push(Spot::new(a, t, k, p));
            }
        }
    }
    v
}

pub fn c24(run: &mut Run) {
    run.assume("words whose scale leaves 1e-4..1e4 or whose position leaves 1e6 are not extended");
    run.assume("f32 results are compared within a propagated bound of the rounding of the operations performed");
    for kind in KINDS {
        let d = if kind.turns() { run.tier.pick(4, 5) } else { run.tier.pick(4, 6) };
        with_kind!(kind, words(run, kind, d));
    }
    for kind in KINDS {
        let ps = poses(kind);
        run.lattice(
            &format!("laws-{kind:?}"),
            &[ps.len(), ps.len(), ps.len()],
            &|ix| format!("{:?} {:?} {:?}", ps[ix[0]], ps[ix[1]], ps[ix[2]]),
            &|ix| {
                let s = [&ps[ix[0]], &ps[ix[1]], &ps[ix[2]]];
                with_kind!(kind, laws(s))
            },
        );
    }
    // rotations all around, next to none and next to half a turn, one after the other
    let axes = [[0.0, 0.0, 1.0], [0.0, -1.0, 0.0], [1.0, 0.0, 0.0], [1.0, 1.0, 0.0], [-1.0, 2.0, 3.0], [0.1, -0.9, 0.4]];
    let turns: Vec<f64> = run.tier.pick(
        vec![0.0, 1e-4, 0.3, 1.5707963267948966, 3.14, -3.1415, 3.141592653589793, -2.0, 5.0],
        vec![0.0, 1e-6, 1e-4, 0.02, 0.3, 1.0, 1.5707963267948966, 1.6, 2.6, 3.14, -3.1415, 3.141592653589793, -2.0, -1e-3, 5.0, 6.28],
    );
    let scales = [1.0f32, 0.05, 0.9, 12.0];
    let (na, nt) = (axes.len(), turns.len());
    let pose = |i: usize, k: usize, p: [f32; 3]| Spot::new(axes[i / nt], turns[i % nt], scales[k], p);
    for kind in KINDS.into_iter().filter(|k| k.turns()) {
        run.lattice(
            &format!("pairs-{kind:?}"),
            &[na * nt, na * nt, scales.len(), scales.len()],
            &|ix| format!("{:?} {:?}", pose(ix[0], ix[2], [3.0, -0.2, 1.0]), pose(ix[1], ix[3], [-1.0, 20.0, 0.5])),
            &|ix| {
                let (a, b) = (pose(ix[0], ix[2], [3.0, -0.2, 1.0]), pose(ix[1], ix[3], [-1.0, 20.0, 0.5]));
                with_kind!(kind, laws([&a, &b, &a]))
            },
        );
    }
    // transforms of any magnitude, alone and two at a time
    let turns = [([0.0, 0.0, 1.0], 0.0), ([1.0, -2.0, 0.5], 0.7), ([0.0, 1.0, 1.0], -2.9)];
    let sizes = [1.0f32, 1e-6, 2e-5, 4e-4, 0.003, 17.0, 900.0, 1e6];
    let places = [[0.0f32, 0.0, 0.0], [3.0, -2.0, 0.5], [-1e-3, 2e-4, 0.0], [-33.4, 0.017, 310.3], [4e3, 7e4, -1e6]];
    for kind in KINDS {
        let turns = if kind.turns() { &turns[..] } else { &turns[..1] };
        let sizes = if kind.scales() { &sizes[..] } else { &sizes[..1] };
        let some: Vec<Spot> = turns.iter().flat_map(|&(a, t)| sizes.iter().flat_map(move |&k| places.map(|p| Spot::new(a, t, k, p)))).collect();
        let many = some.len();
        run.lattice(
            &format!("magnitudes-{kind:?}"),
            &[many, many, 4],
            &|ix| format!("{} of {:?} and {:?}", ["the first", "inverse", "compose", "delta_transform"][ix[2]], some[ix[0]], some[ix[1]]),
            &|ix| {
                let (a, b) = (&some[ix[0]], &some[ix[1]]);
                if ix[2] < 2 && ix[1] > 0 {
                    return Ok("seen");
                }
                with_kind!(kind, wide(a, b, ix[2]))
            },
        );
    }
    // places and points of any magnitude and sign
    let place: Vec<f32> = run.tier.pick(vec![0.0f32, 0.4, 5.0, 60.0, 250.0, 1500.0, 2e4], vec![0.0f32, 0.02, 0.4, 5.0, 25.0, 100.0, 500.0, 3000.0, 2e4, 3e5]);
    let place: Vec<f32> = place.iter().flat_map(|&x| [x, -1.1 * x]).skip(1).collect();
    let point: Vec<f32> = run.tier.pick(vec![0.0f32, -0.02, 0.5, -4.0, 30.0, -200.0, 1500.0, -4e4], vec![0.0, -0.02, 0.02, 0.5, -0.5, -4.0, 4.0, 30.0, -30.0, -200.0, 200.0, 1500.0, -1500.0, -4e4]);
    let ways: Vec<(V, f64, f32)> = turns.iter().flat_map(|&(a, t)| [1.0f32, 0.03, 70.0].map(|k| (a, t, k))).collect();
    for kind in KINDS {
        let ways: Vec<_> = ways.iter().filter(|w| (kind.turns() || w.1 == 0.0) && (kind.scales() || w.2 == 1.0)).collect();
        let spot = |ix: &[usize]| Spot::new(ways[ix[0]].0, ways[ix[0]].1, ways[ix[0]].2, [1, 2, 3].map(|i| place[ix[i]]));
        run.lattice(
            &format!("reach-{kind:?}"),
            &[ways.len(), place.len(), place.len(), place.len(), point.len()],
            &|ix| format!("{:?} of points {} ..", spot(ix), point[ix[4]]),
            &|ix| {
                let (s, x) = (spot(ix), point[ix[4]]);
                with_kind!(kind, reach(&s, x, &point))
            },
        );
    }
    // turned by little, a quarter or half a turn, and by a little more or less, near and far
    let turns = little(run.tier.pick(9, 36));
    let sizes = [1.0f32, 0.2, 30.0];
    let places = [[0.0f32, 0.0, 0.0], [3.0, -2.0, 0.5], [100.0, -250.0, 40.0], [-2e4, 5e3, 7e3]];
    for kind in KINDS.into_iter().filter(|k| k.turns()) {
        let at = |ix: &[usize]| {
            let a = Spot::new(axes[ix[0]], turns[ix[1]], sizes[ix[2]], places[ix[3]]);
            (a, Spot::new(axes[(ix[0] + ix[4]) % na], [0.0, 2.1, turns[turns.len() - 1 - ix[1]]][ix[4]], 0.7, [1.0, 30.0, -4.0]))
        };
        run.lattice(
            &format!("turned-{kind:?}"),
            &[na, turns.len(), sizes.len(), places.len(), 3, 4],
            &|ix| format!("{} of {:?}", ["the first", "inverse", "compose", "delta_transform"][ix[5]], at(ix)),
            &|ix| {
                let (a, b) = at(ix);
                with_kind!(kind, wide(&a, &b, ix[5]))
            },
        );
    }
    // scales next to one, near and far
    let hardly: Vec<f32> = {
        let n = run.tier.pick(16, 60);
        let close = (0..n).map(|i| 0.3 * 10f32.powf(-6.5 * i as f32 / n as f32));
        close.flat_map(|d| [1.0 - d, 1.0 + d]).collect()
    };
    let still = ([0.0, 0.0, 1.0], 0.0);
    let turns = [still, ([1.0, -2.0, 0.5], 0.7), ([0.0, 1.0, 0.0], -1e-3)];
    for kind in KINDS.into_iter().filter(|k| k.scales()) {
        let turns = if kind.turns() { &turns[..] } else { &turns[..1] };
        let others = [1.0f32, 2.0, 0.9999].map(|k| Spot::new(still.0, still.1, k, [0.5, -40.0, 2.0]));
        let spot = |ix: &[usize]| Spot::new(turns[ix[1]].0, turns[ix[1]].1, hardly[ix[0]], places[ix[2]]);
        run.lattice(
            &format!("hardly-scaled-{kind:?}"),
            &[hardly.len(), turns.len(), places.len(), others.len(), 6],
            &|ix| {
                let op = ["the first", "inverse", "compose", "delta_transform", "compose the other way", "delta_transform the other way"][ix[4]];
                format!("{op} of {:?} and {:?}", spot(ix), others[ix[3]])
            },
            &|ix| {
                let (a, b) = (&spot(ix), &others[ix[3]]);
                if ix[4] < 2 && ix[3] > 0 {
                    return Ok("seen");
                }
                let (x, y, op) = if ix[4] < 4 { (a, b, ix[4]) } else { (b, a, ix[4] - 2) };
                with_kind!(kind, wide(x, y, op))
            },
        );
    }
    // a single transform with non-uniform scale
    let pos = [[0.0f32, 0.0, 0.0], [3.0, -2.0, 0.5], [-0.01, 500.0, -3.0]];
    let axes = [[0.0, 0.0, 1.0], [1.0, 0.0, 0.0], [0.0, 1.0, 0.0], [1.0, 2.0, 3.0], [-1.0, 1.0, 0.2]];
    let angles: Vec<f64> = (0..run.tier.pick(9, 40)).map(|i| i as f64 * 0.83 - 2.0).chain([0.0, std::f64::consts::PI, 3.14, -3.1415, 1e-3, 1e-6]).collect();
    let scales = [1.0f32, 0.02, 0.999, -1.0, 40.0, 1e-4, 3e4];
    run.lattice(
        "single",
        &[pos.len(), axes.len(), angles.len(), scales.len(), scales.len(), scales.len()],
        &|ix| format!("pos {:?} axis {:?} angle {} scale {:?}", pos[ix[0]], axes[ix[1]], angles[ix[2]], [3, 4, 5].map(|i| scales[ix[i]])),
        &|ix| {
            let turn = Turn { axis: axes[ix[1]], angle: angles[ix[2]] };
            let s = [3, 4, 5].map(|i| scales[ix[i]]);
            let e = bevy::prelude::Transform { translation: Vec3::from(pos[ix[0]]), rotation: turn.quat(), scale: Vec3::from(s) };
            let t: Transform3d = lib("from", || e.into())?;
            single(&t, turn.q(), v64(e.translation), v64(e.scale))?;
            single(&e, turn.q(), v64(e.translation), v64(e.scale))?;
            let back: bevy::prelude::Transform = lib("into", || t.into())?;
            ensure!(back == e, "converted to Transform3d and back: {back:?} instead of {e:?}");
            if s[0] == s[1] && s[1] == s[2] {
                let i: Isotropic3d = lib("from", || e.into())?;
                let j: Isotropic3d = lib("from", || (&e).into())?;
                ensure!(i == j, "converted by reference {j:?}, by value {i:?}");
                single(&i, turn.q(), v64(e.translation), v64(e.scale))?;
            }
            Ok("transform")
        },
    );
    run.lattice("identities", &[7], &|ix| format!("identity transform {}", ix[0]), &|ix| {
        let m = Model { t: Sim::ID, ek: 0.0, ep: 0.0 };
        match ix[0] {
            0 => observe(&IdentityTransform, &m),
            1 => observe(&Transform3d::default(), &m),
            2 => observe(&Isotropic3d::default(), &m),
            3 => observe(&AxisTransform3d::default(), &m),
            4 => observe(&Translate3d::default(), &m),
            5 => observe(&Translate3d::from(Vec3::ZERO), &m),
            _ => observe(&bevy::prelude::Transform::default(), &m),
        }?;
        Ok("identity")
    });
}

/// No turn, quarter turns and a half turn, and angles next to them in both directions, `n` each, over orders of magnitude.
fn little(n: usize) -> Vec<f64> {
    let by: Vec<f64> = (0..n).map(|i| 10f64.powf(-5.5 + 5.0 * i as f64 / n as f64)).collect();
    let quarter = std::f64::consts::FRAC_PI_2;
    (-1..=2).flat_map(|q| by.iter().flat_map(move |e| [q as f64 * quarter + e, q as f64 * quarter - e]).chain([q as f64 * quarter])).collect()
}

fn single<T: Transformation3d>(t: &T, q: Q, p: V, s: V) -> Result<(), String> {
    let m = s.iter().fold(0.0, |m: f64, k| m.max(k.abs()));
    near("apply_origin", lib("apply_origin", || t.apply_origin())?, p, 0.0)?;
    for x in POINTS.map(|x| v64(v32(x))) {
        let want = add(rot(q, [s[0] * x[0], s[1] * x[1], s[2] * x[2]]), p);
        let l = len(x) + len(p);
        near(format_args!("apply({x:?})"), lib("apply", || t.apply(v32(x)))?, want, 16.0 * EPS * (m * len(x) + len(p)))?;
        let d = rot(qconj(q), sub(x, p));
        let least = s.iter().fold(m, |m: f64, k| m.min(k.abs()));
        let tol = 16.0 * EPS * l / least;
        let u = lib("unapply", || t.unapply(v32(x)))?;
        near(format_args!("unapply({x:?})"), u, [d[0] / s[0], d[1] / s[1], d[2] / s[2]], tol)?;
        near(format_args!("apply(unapply({x:?}))"), lib("apply", || t.apply(u))?, x, 40.0 * EPS * l * m / least)?;
    }
    Ok(())
}

/// Points through one transform and its inverse, there and back.
fn reach<T: Rep>(s: &Spot, x: f32, ys: &[f32]) -> mckit::Verdict {
    let (t, m) = (T::make(s), s.sim());
    let inv = lib("inverse", || t.inverse())?;
    let (k, p0) = (m.k, len(m.p));
    let back = m.inverse();
    for &y in ys {
        for &z in ys {
            let q = Vec3::new(x, y, z);
            let p = v64(q);
            let (to, from) = (24.0 * EPS * (k * len(p) + p0), 28.0 * EPS * (len(p) + p0) / k);
            near(format_args!("apply({q})"), lib("apply", || t.apply(q))?, m.apply(p), to)?;
            near(format_args!("unapply({q})"), lib("unapply", || t.unapply(q))?, back.apply(p), from)?;
            near(format_args!("inverse().apply({q})"), lib("apply", || inv.apply(q))?, back.apply(p), from)?;
            near(format_args!("inverse().unapply({q})"), lib("unapply", || inv.unapply(q))?, m.apply(p), 3.0 * to)?;
        }
    }
    Ok("points")
}

fn wide<T: Rep>(a: &Spot, b: &Spot, op: usize) -> mckit::Verdict {
    let (x, y, mx, my) = (T::make(a), T::make(b), Model::new(a), Model::new(b));
    let (t, m) = match op {
        0 => (x, mx),
        1 => (lib("inverse", || x.inverse())?, mx.inverse()),
        2 => (lib("compose", || x.compose(&y))?, mx.compose(&my)),
        _ => (lib("delta_transform", || x.delta_transform(&y))?, mx.inverse().compose(&my)),
    };
    observe(&t, &m)?;
    Ok("transform")
}

fn laws<T: Rep>(s: [&Spot; 3]) -> mckit::Verdict {
    let [a, b, c] = s.map(|x| T::make(x));
    let [ma, mb, mc] = s.map(Model::new);
    let scale = s.iter().map(|x| len(x.sim().p)).sum::<f64>() + 1.0;
    for p in POINTS {
        let q = v32(p);
        let l = len(p) + scale;
        let ab = lib("compose", || a.compose(&b))?;
        let all = ma.compose(&mb);
        let tol = |m: &Model| 4.0 * (m.ep + (m.ek + 12.0 * EPS) * (m.t.k * l + len(m.t.p)));
        let (x, y) = (lib("apply", || ab.apply(q))?, lib("apply", || a.apply(b.apply(q)))?);
        near("composition", x, v64(y), tol(&all) + 16.0 * EPS * ma.t.k * l)?;
        let inv = lib("inverse", || a.inverse())?;
        let k = ma.t.k.max(1.0 / ma.t.k);
        let one = 80.0 * EPS * l * k;
        near("inverse after", lib("apply", || inv.apply(a.apply(q)))?, v64(q), one)?;
        near("inverse before", lib("apply", || a.apply(inv.apply(q)))?, v64(q), one)?;
        near("unapply after", lib("unapply", || a.unapply(a.apply(q)))?, v64(q), one)?;
        let d = lib("delta_transform", || a.delta_transform(&b))?;
        let (x, y) = (lib("apply", || a.compose(&d).apply(q))?, lib("apply", || b.apply(q))?);
        near("composition with the difference", x, v64(y), 80.0 * EPS * l * (k + mb.t.k) * k)?;
        let (x, y) = (lib("compose", || ab.compose(&c))?, lib("compose", || a.compose(&b.compose(&c)))?);
        let abc = ma.compose(&mb.compose(&mc));
        near("association", x.apply(q), v64(y.apply(q)), 2.0 * tol(&abc) + 16.0 * EPS * ma.t.k * mb.t.k * l)?;
    }
    Ok("laws")
}
