//! C06, C07, C08, C11: how answers to related questions relate to each other.
//!
//! Two answers are compared by verdict, by length, and by effect: where either would leave the shapes.
use crate::domains::*;
use crate::scene::*;
use auburn::col2d::{Box2d, DistanceToRel2d, ExtremePoint2d, Poly2d, Vec2};
use mckit::geo::{Diff, Sim};
use mckit::{ensure, lib, Run, Tier, Verdict};

type V = [f64; 2];

/// The answers to all queries in one situation; vectors and lengths mapped to a common frame by `lin`.
struct Sheet {
    coll: bool,
    pen: Option<V>,
    dist: Option<V>,
    full: (bool, V),
    sdf: Option<f64>,
}

fn sheet(c: &Case, lin: &dyn Fn(V) -> V, k: f64) -> Result<Sheet, String> {
    let m = |v: Vec2| lin([v.x as f64, v.y as f64]);
    let (Ans::Flag(coll), Ans::Maybe(pen), Ans::Maybe(dist), Ans::Both(flag, v)) =
        (c.ask(Q::Coll)?, c.ask(Q::Pen)?, c.ask(Q::Dist)?, c.ask(Q::Sdfv)?)
    else {
        unreachable!()
    };
    let sdf = if c.pair.has_sdf() {
        match c.ask(Q::Sdf)? {
            Ans::Num(x) => Some(x as f64 * k),
            _ => unreachable!(),
        }
    } else {
        None
    };
    Ok(Sheet { coll, pen: pen.map(m), dist: dist.map(m), full: (flag, m(v)), sdf })
}

/// `base` is judged in its own situation `c`; `other` has been mapped into the frame of `c`.
fn compare(c: &Case, what: &str, base: &Sheet, other: &Sheet, tol: f64) -> Result<(), String> {
    let say = |f: &str| format!("{f} changes {what}");
    ensure!(base.coll == other.coll, "{}: collides {} and {}", say("the verdict"), base.coll, other.coll);
    ensure!(base.full.0 == other.full.0, "{}: {:?} and {:?}", say("the flag of sdfv"), base.full, other.full);
    let vec = |name: &str, a: Option<V>, b: Option<V>| -> Result<(), String> {
        ensure!(a.is_some() == b.is_some(), "{}: {a:?} and {b:?}", say(name));
        let (Some(a), Some(b)) = (a, b) else { return Ok(()) };
        let (la, lb) = (mckit::geo::len(a), mckit::geo::len(b));
        ensure!((la - lb).abs() <= tol, "{}: {a:?} and {b:?} differ in length", say(name));
        let (ea, eb) = (c.sd_after(a), c.sd_after(b));
        ensure!((ea - eb).abs() <= tol, "{}: {a:?} leaves the shapes at {ea:.6}, {b:?} at {eb:.6}", say(name));
        Ok(())
    };
    vec("the penetration vector", base.pen, other.pen)?;
    vec("the distance vector", base.dist, other.dist)?;
    vec("the signed distance vector", Some(base.full.1), Some(other.full.1))?;
    if let (Some(a), Some(b)) = (base.sdf, other.sdf) {
        ensure!((a - b).abs() <= tol, "{}: {a} and {b}", say("the scalar signed distance"));
    }
    Ok(())
}

const FEW: [f64; 7] = [-0.4, -0.05, -0.004, 0.004, 0.05, 0.6, 5.0];

/// Relative placement of the second shape: rotation `a`, scale `k`, along direction `th` at gap `g` x size.
fn relative(p: &dyn Pair, a: f32, k: f32, th: f64, g: f64) -> Spot {
    let d = Diff::new(p.ra(), &p.rb().place(&Spot { a, k, p: [0.0; 2] }.sim()));
    let size = p.ra().size() + k as f64 * p.rb().size();
    let size = if size < 0.5 * SMALLEST { 1e-3 } else { size };
    let at = along(&d, th, g * size, size);
    Spot { a, k, p: [at[0] as f32, at[1] as f32] }
}

fn to_spot(a: f32, k: f32, p: V) -> Spot {
    Spot { a, k, p: [p[0] as f32, p[1] as f32] }
}

fn label(s: f64) -> &'static str {
    if s < 0.0 {
        "overlap"
    } else {
        "apart"
    }
}

fn scope(run: &mut Run) {
    run.assume("shapes, sizes and placements are those of the finite catalogue and lattices listed under coverage.domains");
    run.assume(&format!("situations with |signed distance| < {BAND} x combined size + rounding are not judged"));
    run.assume("several minimal vectors may exist: vectors are compared by length and by effect");
}

/// Scenes against the same scenes rotated and moved: orientation and scale of the second shape x direction x gap x
/// (rotation, translation, scale of the first shape).
fn moved(run: &mut Run, w: &World, name: &str, nth: usize, rots: &[(f32, f32)], gaps: &[f64], motions: &[(f64, V, f32)]) {
    let case = |ix: &[usize]| -> (Case, Case, Sim, f64) {
        let p = &*w.pairs[ix[0]];
        let (a, k) = rots[ix[1]];
        let rel = relative(p, a, k, direction(ix[2], nth), gaps[ix[3]]);
        let (ma, mt, mk) = motions[ix[4]];
        let size = p.ra().size() + p.rb().size() * k as f64;
        // scene: first collider at home with scale mk; then both moved
        let base_a = Spot { a: 0.0, k: mk, p: [0.0; 2] };
        let base_b = to_spot(rel.a, rel.k * mk, [rel.p[0] as f64 * mk as f64, rel.p[1] as f64 * mk as f64]);
        let t = [mt[0] * size * mk as f64, mt[1] * size * mk as f64];
        let g = Sim::new(ma, 1.0, t);
        let mv = |s: &Spot| to_spot((s.a as f64 + ma) as f32, s.k, g.apply([s.p[0] as f64, s.p[1] as f64]));
        let base = Case::world(p, Kind::Full, (ix[4] % 3) as u8, base_a, base_b);
        let moved = Case::world(p, Kind::Full, ((ix[4] + ix[2]) % 3) as u8, mv(&base_a), mv(&base_b));
        let slack = 64.0 * moved.ulp;
        (base, moved, g, slack)
    };
    let judge = |ix: &[usize]| -> Verdict {
        let (base, moved, g, slack) = case(ix);
        let s = base.sd();
        if s.abs() <= base.band() + moved.band() {
            return Ok("touching");
        }
        let tol = 2.0 * base.tol(s) + slack;
        let inv = g.inverse();
        let one = sheet(&base, &|v| v, 1.0)?;
        let two = sheet(&moved, &|v| inv.rot(v), 1.0)?;
        compare(&base, "when the whole scene is rotated and moved", &one, &two, tol)?;
        // the relative form, expressed in world coordinates
        let How::World(_, ta, tb) = base.how else { unreachable!() };
        let mk = ta.k as f64;
        let rel = to_spot(tb.a, tb.k / ta.k, [tb.p[0] as f64 / mk, tb.p[1] as f64 / mk]);
        let r = Case::relative(base.pair, Kind::Full, rel);
        let three = sheet(&r, &|v| [v[0] * mk, v[1] * mk], mk)?;
        compare(&base, "between the relative and the world form", &one, &three, tol)?;
        // directly against the geometry, in the moved world
        for v in [two.pen, two.dist].into_iter().flatten() {
            let v = g.rot(v);
            let (l, e) = (mckit::geo::len(v), moved.sd_after(v));
            ensure!((l - s.abs()).abs() <= tol && e.abs() <= tol, "world vector {v:?} leaves the shapes at {e:.6} (was {s:.6})");
        }
        Ok(label(s))
    };
    run.lattice(
        name,
        &[w.pairs.len(), rots.len(), nth, gaps.len(), motions.len()],
        &|ix| format!("{} moved by {:?}", case(ix).0.describe(), motions[ix[4]]),
        &judge,
    );
}

/// Rotating and translating the whole scene.
pub fn c06(run: &mut Run) {
    scope(run);
    let w = World::new(run.tier, &|_| true);
    let nth = run.tier.pick(5, 10);
    let rots: Vec<(f32, f32)> = match run.tier {
        Tier::Quick => vec![(0.0, 1.0), (0.7, 1.0), (-2.1, 1.0), (1.9, 0.5), (4.0, 3.0)],
        _ => rotations(8).into_iter().flat_map(|a| [(a, 1.0), (a, 0.4), (a, 2.5)]).collect(),
    };
    // rotation, translation (in units of the combined size); the first collider's own scale
    let motions: Vec<(f64, V, f32)> = {
        let mut m = vec![];
        for a in [0.0, 0.5, 1.5707963267948966, 3.0, -2.2, -0.8, 5.7] {
            for t in [[0.0, 0.0], [1.5, -0.6], [-40.0, 25.0]] {
                for k in [1.0, 0.5, 4.0] {
                    m.push((a, t, k));
                }
            }
        }
        m
    };
    moved(run, &w, "rigid-motion", nth, &rots, &FEW, &motions);
    // turns that are almost special ones, scales that are almost one
    let rots: Vec<(f32, f32)> = NEAR_TURNS.iter().map(|&a| (a, 1.0)).chain(NEAR_ONE.map(|k| (0.0, k))).collect();
    let motions: Vec<(f64, V, f32)> = NEAR_TURNS
        .iter()
        .enumerate()
        .flat_map(|(i, &a)| [1.0f32, NEAR_ONE[i % 4]].map(|k| (a as f64, [[0.0, 0.0], [1.5, -0.6]][i % 2], k)))
        .collect();
    moved(run, &w, "slight-motion", run.tier.pick(4, 12), &rots, &[-0.05, 0.05, 0.6], &motions);
    // translations far away from the origin, in the transform types that are translations
    let far: Vec<V> = vec![[3.0, -2.0], [-64.0, 128.0], [310.25, 0.5], [1000.5, -250.25], [-5.0e4, 3.0e4]];
    let kinds = [Kind::Vector, Kind::Translate, Kind::Axis, Kind::Full];
    let case = |ix: &[usize]| -> (Case, Case) {
        let p = &*w.pairs[ix[0]];
        let rel = relative(p, 0.0, 1.0, direction(ix[1], nth), FEW[ix[2]]);
        let f = far[ix[3]];
        let kind = kinds[ix[4]];
        let mv = |s: &Spot| to_spot(s.a, s.k, [s.p[0] as f64 + f[0], s.p[1] as f64 + f[1]]);
        (Case::world(p, kind, 0, Spot::HOME, rel), Case::world(p, kind, 1, mv(&Spot::HOME), mv(&rel)))
    };
    run.lattice(
        "far-translation",
        &[w.pairs.len(), nth, FEW.len(), far.len(), kinds.len()],
        &|ix| case(ix).1.describe(),
        &|ix| {
            let (base, moved) = case(ix);
            let s = base.sd();
            // positions differ by their rounding only, and nothing is turned or scaled
            let f = far[ix[3]];
            let slack = 1e-6 * (f[0].abs() + f[1].abs());
            if s.abs() <= base.band() + moved.band() + slack {
                return Ok("touching");
            }
            let (one, two) = (sheet(&base, &|v| v, 1.0)?, sheet(&moved, &|v| v, 1.0)?);
            compare(&base, "when the whole scene is moved", &one, &two, 2.0 * base.tol(s) + slack)?;
            Ok(label(s))
        },
    );
}

/// Swapping the two shapes.
pub fn c07(run: &mut Run) {
    scope(run);
    let w = World::new(run.tier, &|_| true);
    // pairs whose reverse is supported, too
    let both: Vec<(usize, Box<dyn Pair>)> = w
        .specs
        .iter()
        .enumerate()
        .filter_map(|(i, (x, y))| pair(y, x).map(|r| (i, r)))
        .collect();
    let nth = run.tier.pick(12, 40);
    let rots: Vec<f32> = rotations(run.tier.pick(4, 12)).into_iter().chain([-0.015, 1.5748, 3.1316]).collect();
    let ks: Vec<f32> = vec![1.0, 0.3, 2.0, 25.0, 1.03, 0.9993];
    let spots = |ix: &[usize]| -> (Spot, Spot) {
        let p = &*w.pairs[both[ix[0]].0];
        let rel = relative(p, rots[ix[1]], ks[ix[2]], direction(ix[3], nth), FEW[ix[4]]);
        let i = rel.sim().inverse();
        (rel, to_spot(-rel.a, 1.0 / rel.k, i.p))
    };
    run.lattice(
        "swap-relative",
        &[both.len(), rots.len(), ks.len(), nth, FEW.len()],
        &|ix| Case::relative(&*w.pairs[both[ix[0]].0], Kind::Full, spots(ix).0).describe(),
        &|ix| {
            let (i, rev) = &both[ix[0]];
            let (rel, inv) = spots(ix);
            let c = Case::relative(&*w.pairs[*i], Kind::Full, rel);
            let r = Case::relative(&**rev, Kind::Full, inv);
            let s = c.sd();
            let k = rel.k as f64;
            if s.abs() <= c.band() + k * r.band() {
                return Ok("touching");
            }
            let sim = rel.sim();
            let one = sheet(&c, &|v| v, 1.0)?;
            let two = sheet(
                &r,
                &|v| {
                    let x = sim.lin(v);
                    [-x[0], -x[1]]
                },
                k,
            )?;
            let tol = c.tol(s) + k * r.tol(s / k) + 64.0 * k * r.ulp;
            compare(&c, "when the shapes are swapped", &one, &two, tol)?;
            Ok(label(s))
        },
    );
    let ps = poses(Kind::Full);
    let world = |ix: &[usize]| -> (Case, Case) {
        let (i, rev) = &both[ix[0]];
        let p = &*w.pairs[*i];
        let ta = ps[ix[1]];
        let rel = relative(p, rots[(ix[3] + ix[4]) % rots.len()], ks[ix[2]], direction(ix[3], nth), FEW[ix[4]]);
        let q = ta.sim().apply([rel.p[0] as f64, rel.p[1] as f64]);
        let tb = to_spot(ta.a + rel.a, ta.k * rel.k, q);
        (Case::world(p, Kind::Full, 0, ta, tb), Case::world(&**rev, Kind::Full, 1, tb, ta))
    };
    run.lattice(
        "swap-world",
        &[both.len(), ps.len(), ks.len(), nth, FEW.len()],
        &|ix| world(ix).0.describe(),
        &|ix| {
            let (c, r) = world(ix);
            let s = c.sd();
            if s.abs() <= c.band() + r.band() {
                return Ok("touching");
            }
            let one = sheet(&c, &|v| v, 1.0)?;
            let two = sheet(&r, &|v| [-v[0], -v[1]], 1.0)?;
            compare(&c, "when the colliders are swapped", &one, &two, c.tol(s) + r.tol(s))?;
            Ok(label(s))
        },
    );
}

#[allow(clippy::too_many_arguments)]
fn scaled(run: &mut Run, w: &World, name: &str, factors: &[f32], rots: &[f32], nth: usize, gaps: &[f64], modes: usize) {
    let both: Vec<Vec<Box<dyn Pair>>> =
        factors.iter().map(|&f| w.specs.iter().map(|(x, y)| pair(&x.scaled(f), &y.scaled(f)).unwrap()).collect()).collect();
    let mixed: Vec<[Vec<Box<dyn Pair>>; 2]> = factors
        .iter()
        .map(|&f| {
            [
                w.specs.iter().map(|(x, y)| pair(&x.scaled(f), y).unwrap()).collect(),
                w.specs.iter().map(|(x, y)| pair(x, &y.scaled(f)).unwrap()).collect(),
            ]
        })
        .collect();
    let case = |ix: &[usize]| -> (Case, Case, f64) {
        let p = &*w.pairs[ix[0]];
        let rel = relative(p, rots[ix[2]], 1.0, direction(ix[3], nth), gaps[ix[4]]);
        let f = factors[ix[1]];
        let big = &*both[ix[1]][ix[0]];
        let fp = [rel.p[0] * f, rel.p[1] * f];
        let pose = Spot { a: 0.4, ..Spot::HOME };
        let tb = |k: f32, q: [f32; 2]| to_spot(rel.a + 0.4, k, pose.sim().apply([q[0] as f64, q[1] as f64]));
        let base = Case::world(p, Kind::Full, 0, pose, tb(1.0, rel.p));
        let g = 1.0 / f;
        match ix[5] {
            0 => (base, Case::world(big, Kind::Full, 0, pose, tb(1.0, fp)), f as f64),
            1 => (base, Case::world(p, Kind::Full, 1, Spot { k: f, ..pose }, tb(f, fp)), f as f64),
            2 => (base, Case::world(big, Kind::Full, 2, Spot { k: g, ..pose }, tb(g, rel.p)), 1.0),
            3 => (base, Case::world(&*mixed[ix[1]][0][ix[0]], Kind::Full, 0, Spot { k: g, ..pose }, tb(1.0, rel.p)), 1.0),
            4 => (base, Case::world(&*mixed[ix[1]][1][ix[0]], Kind::Full, 0, pose, tb(g, rel.p)), 1.0),
            m => {
                let r = Case::relative(p, Kind::Full, rel);
                if m == 5 {
                    (r, Case::relative(big, Kind::Full, Spot { p: fp, ..rel }), f as f64)
                } else {
                    (r, Case::relative(&*mixed[ix[1]][1][ix[0]], Kind::Full, Spot { k: g, ..rel }), 1.0)
                }
            }
        }
    };
    run.lattice(
        name,
        &[w.pairs.len(), factors.len(), rots.len(), nth, gaps.len(), modes],
        &|ix| {
            let c = case(ix);
            format!("{} against factor {} {}", c.0.describe(), c.2, c.1.describe())
        },
        &|ix| {
            let (base, big, f) = case(ix);
            if big.size < SMALLEST {
                return Ok("smaller than claimed");
            }
            let s = base.sd();
            if s.abs() <= base.band() + big.band() / f {
                return Ok("touching");
            }
            let one = sheet(&base, &|v| v, 1.0)?;
            let two = sheet(&big, &|v| [v[0] / f, v[1] / f], 1.0 / f)?;
            let tol = base.tol(s) + big.tol(s * f) / f + 64.0 * (base.ulp + big.ulp / f);
            compare(&base, "when the scene is scaled", &one, &two, tol)?;
            Ok(label(s))
        },
    );
}

/// Scaling the scene.
pub fn c08(run: &mut Run) {
    scope(run);
    let w = World::new(run.tier, &|_| true);
    let nth = run.tier.pick(8, 16);
    let rots = if run.tier == Tier::Quick { vec![0.0, 0.9, -2.3] } else { rotations(8) };
    // modes: 0 dimensions and distances, 1 both transforms, 2 dimensions of both shapes undone by the transforms,
    // 3 dimensions of the first only, undone by its transform, 4 the same for the second,
    // 5 relative form: dimensions and distances, 6 relative form with the second shape's scale undone
    let modes = 7;
    scaled(run, &w, "scaled-scene", &FACTORS, &rots, nth, &FEW, modes);
    scaled(run, &w, "hardly-scaled", &NEAR_ONE, &rots[..2], run.tier.pick(4, 16), &[-0.05, 0.05, 0.6, 5.0], modes);
    // every magnitude of the factor, in a few situations
    let n = run.tier.pick(60, 400);
    let sweep: Vec<f32> = (0..n).map(|i| (1e-3 * 1e7f64.powf((i as f64 + 0.37) / n as f64)) as f32).collect();
    scaled(run, &w, "swept", &sweep, &rots[1..2], 2, &[-0.05, 0.6], modes);
    // the same with axis transforms
    let case = |ix: &[usize]| -> (Case, Case, f64) {
        let p = &*w.pairs[ix[0]];
        let rel = relative(p, 0.0, 1.0, direction(ix[2], nth), FEW[ix[3]]);
        let f = FACTORS[ix[1]];
        let at = |k: f32, q: [f32; 2]| Spot { a: 0.0, k, p: q };
        let base = Case::world(p, Kind::Axis, 0, Spot::HOME, rel);
        let fp = [rel.p[0] * f, rel.p[1] * f];
        if ix[4] == 0 {
            (base, Case::world(p, Kind::Axis, 1, at(f, [0.0; 2]), at(f, fp)), f as f64)
        } else {
            let big = &*w.scaled[ix[1]][ix[0]];
            (base, Case::world(big, Kind::Axis, 0, at(1.0 / f, [0.0; 2]), at(1.0 / f, rel.p)), 1.0)
        }
    };
    run.lattice(
        "scaled-axis",
        &[w.pairs.len(), FACTORS.len(), nth, FEW.len(), 2],
        &|ix| case(ix).1.describe(),
        &|ix| {
            let (base, big, f) = case(ix);
            if big.size < SMALLEST {
                return Ok("smaller than claimed");
            }
            let s = base.sd();
            if s.abs() <= base.band() + big.band() / f {
                return Ok("touching");
            }
            let one = sheet(&base, &|v| v, 1.0)?;
            let two = sheet(&big, &|v| [v[0] / f, v[1] / f], 1.0 / f)?;
            let tol = base.tol(s) + big.tol(s * f) / f + 64.0 * (base.ulp + big.ulp / f);
            compare(&base, "when the scene is scaled", &one, &two, tol)?;
            Ok(label(s))
        },
    );
}

/// Equivalent representations.
pub fn c11(run: &mut Run) {
    scope(run);
    let u = |s: &Spec| Spec::U(Box::new(s.clone()));
    let m = |s: &Spec| Spec::M(Box::new(s.clone()));
    let n = |s: &Spec| Spec::N(Box::new(s.clone()));
    let n_ = &n;
    let disc = |r: f32| {
        let b = Spec::Disc(r);
        vec![b.clone(), u(&b), m(&b), n(&b)]
    };
    let rect = |x: f32, y: f32| {
        let b = Spec::Boxy(x, y);
        let mk = |s: &str, l: &[[f32; 2]]| Spec::poly(s, l);
        let (p, q, r, t) = ([x, y], [-x, y], [-x, -y], [x, -y]);
        let ccw = mk("ccw", &[p, q, r, t]);
        let cw = mk("cw", &[t, r, q, p]);
        let cross = mk("crossed", &[r, p, q, t]);
        let dup = mk("duplicated", &[q, q, p, t, t, r, p]);
        let mid = mk("collinear", &[p, [0.0, y], q, [-x, 0.0], r, [0.0, -y], t, [x, 0.0]]);
        let inner = mk("with inner points", &[[0.0, 0.0], p, [x * 0.5, 0.0], q, r, t]);
        let conv: Vec<[f32; 2]> = auburn::col2d::Poly2d::from(auburn::col2d::Box2d::with_halfdims(x, y)).points.iter().map(|p| [p.x, p.y]).collect();
        let conv = mk("converted", &conv);
        let un = [u(&b), u(&ccw), n(&b), n(&cross), m(&cw)];
        let mut v = vec![b, ccw, cw, cross, dup, mid, inner, conv];
        v.extend(un);
        v
    };
    let poly = |name: &str, l: &[[f32; 2]]| {
        let mut v = vec![];
        for k in 0..l.len() {
            let mut r = l.to_vec();
            r.rotate_left(k);
            v.push(Spec::poly(&format!("{name} from {k}"), &r));
            r.reverse();
            v.push(Spec::poly(&format!("{name} reversed from {k}"), &r));
        }
        let p = v[0].clone();
        v.extend([u(&p), m(&p), n(&p)]);
        v
    };
    // many points, in other orders and with more points that change nothing
    let orders = |n: usize| {
        let l = regular(n, 1.2, 0.1);
        let mk = |s: &str, l: Vec<[f32; 2]>| Spec::poly(s, &l);
        let mut back = l.clone();
        back.reverse();
        let jump: Vec<[f32; 2]> = (0..n).map(|i| l[i * (n / 2 - 2) % n]).collect();
        assert!(jump.iter().all(|p| jump.iter().filter(|q| p == *q).count() == 1));
        let twice = l.iter().flat_map(|p| [*p, *p]).collect();
        let within = l.iter().map(|p| [p[0] * 0.5, p[1] * 0.5]).chain(back.clone()).collect();
        let mid = (0..n).flat_map(|i| [l[i], [0.5 * (l[i][0] + l[(i + 1) % n][0]), 0.5 * (l[i][1] + l[(i + 1) % n][1])]]).collect();
        let v = vec![mk("round", l.clone()), mk("back", back), mk("jumping", jump), mk("twice", twice), mk("within", within), mk("subdivided", mid)];
        let more = [u(&v[2]), n_(&v[0])];
        v.into_iter().chain(more).collect::<Vec<_>>()
    };
    let geometries: Vec<Vec<Spec>> = vec![
        disc(0.75),
        disc(0.05),
        rect(0.5, 0.5),
        rect(2.0, 0.3),
        poly("right", &[[-1.0, -1.0], [1.0, -1.0], [-1.0, 2.0]]),
        poly("quad", &[[-0.7, 0.4], [0.2, 1.1], [1.6, -0.1], [0.3, -0.9]]),
        poly("hexagon", &regular(6, 0.9, 0.3)),
        orders(26),
    ];
    struct Group {
        pairs: Vec<Box<dyn Pair>>,
    }
    let mut groups = vec![];
    for f in [1.0f32, 4e-4, 300.0] {
        for x in &geometries {
            for y in &geometries {
                let mut pairs: Vec<Box<dyn Pair>> = vec![];
                for a in x {
                    for b in y {
                        pairs.extend(pair(&a.scaled(f), &b.scaled(f)));
                    }
                }
                groups.push(Group { pairs });
            }
        }
    }
    let members: Vec<(usize, usize)> =
        groups.iter().enumerate().flat_map(|(g, x)| (0..x.pairs.len()).map(move |i| (g, i))).collect();
    let nth = run.tier.pick(8, 24);
    let rots = rotations(run.tier.pick(6, 12));
    let base = |ix: &[usize]| -> Case {
        let (g, _) = members[ix[0]];
        let p = &*groups[g].pairs[0];
        Case::relative(p, Kind::Full, relative(p, rots[ix[1]], 1.0, direction(ix[2], nth), FEW[ix[3]]))
    };
    run.lattice(
        "shape-representations",
        &[members.len(), rots.len(), nth, FEW.len()],
        &|ix| format!("{} as {}", base(ix).describe(), groups[members[ix[0]].0].pairs[members[ix[0]].1].name()),
        &|ix| {
            let c = base(ix);
            if c.size < SMALLEST {
                return Ok("smaller than claimed");
            }
            let s = c.sd();
            if s.abs() <= c.band() {
                return Ok("touching");
            }
            let (g, i) = members[ix[0]];
            let How::Rel(spot) = c.how else { unreachable!() };
            let d = Case::relative(&*groups[g].pairs[i], Kind::Full, spot);
            let (one, two) = (sheet(&c, &|v| v, 1.0)?, sheet(&d, &|v| v, 1.0)?);
            compare(&c, "with the representation of the shapes", &one, &two, c.tol(s) + d.tol(s))?;
            Ok(label(s))
        },
    );
    // the farthest points all queries are made of, also of shapes too thin or too small for the band above
    let mut families: Vec<Vec<Box<dyn Solo>>> = vec![];
    for f in [1.0f32, 1e-5, 4e-4, 300.0, 1e5] {
        for g in geometries.iter().cloned().chain([(1.0f32, 6e-4f32), (2e-5, 1.0), (0.0, 1.0), (1.0, 0.0), (0.0, 0.0), (40.0, 1.0)].map(|(x, y)| rect(x, y))) {
            families.push(g.iter().map(|s| solo(&s.scaled(f))).collect());
        }
    }
    for p in small_polygons(run.tier.pick(4, 5)) {
        families.push([p.clone(), u(&p), m(&p), n(&p)].iter().map(solo).collect());
    }
    let members: Vec<(usize, usize)> =
        families.iter().enumerate().flat_map(|(g, x)| (1..x.len()).map(move |i| (g, i))).collect();
    let turns = run.tier.pick(96usize, 720);
    let places = [
        (Kind::Full, Spot { a: 0.0, k: 1.0, p: [0.0, 0.0] }),
        (Kind::Full, Spot { a: 1.1, k: 2.5, p: [3.0, -1.0] }),
        (Kind::Axis, Spot { a: 0.0, k: 0.2, p: [0.0, 7.0] }),
    ];
    run.lattice(
        "support-representations",
        &[members.len(), turns, places.len() + 1],
        &|ix| {
            let (g, i) = members[ix[0]];
            format!("{} as {}, direction {} of {turns}, placement {}", families[g][0].name(), families[g][i].name(), ix[1], ix[2])
        },
        &|ix| {
            let (g, i) = members[ix[0]];
            let (a, b) = (&*families[g][0], &*families[g][i]);
            let th = std::f64::consts::TAU * ix[1] as f64 / turns as f64;
            let d = Vec2::new(th.cos() as f32, th.sin() as f32);
            let (mut reach, mut tol) = ([0f64; 2], 2e-6 * a.reference().size());
            if ix[2] == 0 {
                for (r, s) in reach.iter_mut().zip([a, b]) {
                    let p = s.extreme(d)?;
                    *r = p.x as f64 * d.x as f64 + p.y as f64 * d.y as f64;
                }
            } else {
                let (kind, t) = &places[ix[2] - 1];
                tol = tol * t.k as f64 + 1e-6 * t.coord();
                for (r, s) in reach.iter_mut().zip([a, b]) {
                    let p = s.extreme_t(*kind, t, d)?[0];
                    *r = p.x as f64 * d.x as f64 + p.y as f64 * d.y as f64;
                }
            }
            ensure!((reach[0] - reach[1]).abs() <= tol, "along {d:?} they reach {} and {}", reach[0], reach[1]);
            Ok("equally far")
        },
    );
    // any number of points, listed from any of them on, and again at the end
    let most = run.tier.pick(40usize, 130);
    run.lattice(
        "counts",
        &[most - 2, most, 4],
        &|ix| format!("{} points listed from number {} on{}", ix[0] + 3, ix[1], ["", ", backwards", ", closed", ", each twice"][ix[2]]),
        &|ix| {
            let n = ix[0] + 3;
            if ix[1] >= n {
                return Ok("seen");
            }
            let around: Vec<Vec2> = regular(n, 2.0, 0.123).into_iter().map(Vec2::from).collect();
            let mut p = around.clone();
            p.rotate_left(ix[1]);
            match ix[2] {
                0 => {}
                1 => p.reverse(),
                2 => p.push(p[0]),
                _ => p = p.into_iter().flat_map(|q| [q, q]).collect(),
            }
            let (one, two, cube) = (Poly2d::new(&around), Poly2d::new(&p), Box2d::with_halfdims(0.1, 0.1));
            for &q in &around {
                for d in [q, Vec2::new(q.x - 0.01, q.y)] {
                    let (x, y) = (lib("extreme_point", || one.extreme_point(d))?.dot(d), lib("extreme_point", || two.extreme_point(d))?.dot(d));
                    ensure!((x - y).abs() <= 2e-6 * x.abs().max(1.0), "along {d:?} they reach {y}, listed in order {x}");
                }
                // and next to a point
                let rel = q * 1.25;
                let (x, y) = (lib("distance_to", || one.distance_to_rel(&cube, &rel))?, lib("distance_to", || two.distance_to_rel(&cube, &rel))?);
                let far = |v: Option<Vec2>| v.map_or(0.0, |v| v.length());
                ensure!((far(x) - far(y)).abs() <= 1e-4, "a box at {rel:?} is {y:?} away, listed in order {x:?}");
            }
            Ok("equally far")
        },
    );
    // transform representations, relative and world forms
    let w = World::new(run.tier, &|_| true);
    let nth = run.tier.pick(12, 36);
    let ways: Vec<(Kind, u8)> = KINDS.iter().flat_map(|&k| (0..5u8).map(move |f| (k, f))).collect();
    let placements: Vec<(f32, f32)> = vec![(0.0, 1.0), (0.0, 2.0), (0.0, 0.25), (0.8, 1.0), (-2.5, 0.5)];
    let mk = |ix: &[usize]| -> (Case, Option<Case>, f64) {
        let p = &*w.pairs[ix[0]];
        let (a, k) = placements[ix[1]];
        let rel = relative(p, a, k, direction(ix[2], nth), FEW[ix[3]]);
        let base = Case::relative(p, Kind::Full, rel);
        let (kind, form) = ways[ix[4]];
        if !kind.can(&rel) {
            return (base, None, 1.0);
        }
        let c = match form {
            0 => Case::relative(p, kind, rel),
            1..=3 => Case::world(p, kind, form - 1, Spot::HOME, rel),
            // both colliders carry a scale
            _ => {
                let f = if kind.can(&Spot { k: 2.0, ..rel }) { 2.0f32 } else { 1.0 };
                let tb = Spot { a: rel.a, k: rel.k * f, p: [rel.p[0] * f, rel.p[1] * f] };
                return (base, Some(Case::world(p, kind, 1, Spot { k: f, ..Spot::HOME }, tb)), f as f64);
            }
        };
        (base, Some(c), 1.0)
    };
    run.lattice(
        "transform-representations",
        &[w.pairs.len(), placements.len(), nth, FEW.len(), ways.len()],
        &|ix| format!("{} as {:?}", mk(ix).0.describe(), ways[ix[4]]),
        &|ix| {
            let (c, d, f) = mk(ix);
            let Some(d) = d else { return Ok("not expressible") };
            let s = c.sd();
            if s.abs() <= c.band() {
                return Ok("touching");
            }
            let (one, two) = (sheet(&c, &|v| v, 1.0)?, sheet(&d, &|v| [v[0] / f, v[1] / f], 1.0 / f)?);
            compare(&c, "with the representation of the placement", &one, &two, c.tol(s) + d.tol(s * f) / f)?;
            Ok(label(s))
        },
    );
}
