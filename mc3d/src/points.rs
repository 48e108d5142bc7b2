//! C23: balls and boxes against points in space, support points, covering.
use crate::space::*;
use crate::with_kind;
use auburn::col3d::*;
use mckit::{ensure, lib, Run};

trait Shape:
    CollidesRel3d<Point> + PenetratesRel3d<Point> + SdfRel3d<Point> + SdfvRel3d<Point> + DefaultCol3dImpls + ExtremePoint3d + Sync
{
}
impl Shape for Ball {}
impl Shape for Box3d {}

#[derive(Clone, Copy, Debug)]
enum Spec {
    Ball(f32),
    Box(f32, f32, f32),
}

impl Spec {
    fn half(&self) -> V {
        match *self {
            Spec::Ball(r) => [r as f64; 3],
            Spec::Box(x, y, z) => [x as f64, y as f64, z as f64],
        }
    }
    /// Signed distance of a point.
    fn sd(&self, p: V) -> f64 {
        match *self {
            Spec::Ball(r) => len(p) - r as f64,
            Spec::Box(..) => {
                let h = self.half();
                let d = [0, 1, 2].map(|i| p[i].abs() - h[i]);
                let out = len(d.map(|x| x.max(0.0)));
                if out > 0.0 {
                    out
                } else {
                    d[0].max(d[1]).max(d[2])
                }
            }
        }
    }
    fn size(&self) -> f64 {
        len(self.half())
    }
}

/// A signed-distance or penetration vector is as long as the distance, and following it leads to contact.
fn effect(what: &str, v: Vec3, s: f64, after: f64, tol: f64) -> Result<(), String> {
    ensure!(v.is_finite(), "{what} is {v:?}");
    let l = len(v64(v));
    ensure!((l - s.abs()).abs() <= tol, "{what} is {v:?} of length {l}, but the signed distance is {s}");
    ensure!(after.abs() <= tol, "after moving along {what} {v:?}, the signed distance is {after}");
    Ok(())
}

/// Shape at `at`, a point in its local space at `l`; the point's own pose is `own` moved there.
fn judge<S: Shape, T: Rep>(shape: &S, spec: Spec, at: &Spot, l: V, own: &Spot) -> mckit::Verdict {
    let mut label = "apart";
    // shape first: the point is at the origin of the relative transform
    {
        let spot = Spot { p: l.map(|x| x as f32), ..*own };
        let rel = T::make(&spot);
        let p = spot.sim().p;
        let s = spec.sd(p);
        let tol = 4e-6 * (spec.size() + len(p)) + 1e-30;
        let c = lib("collides_rel", || shape.collides_rel(&Point, &rel))?;
        let pen = lib("penetrates_rel", || shape.penetrates_rel(&Point, &rel))?;
        let d = lib("sdf_rel", || shape.sdf_rel(&Point, &rel))? as f64;
        let v = lib("sdfv_rel", || shape.sdfv_rel(&Point, &rel))?;
        ensure!(c == pen.is_some(), "collides_rel is {c}, penetrates_rel {pen:?}");
        if s.abs() > tol {
            ensure!(c == (s < 0.0), "collides_rel is {c}, but the signed distance is {s}");
            label = if c { "overlap" } else { "apart" };
        } else {
            label = "touching";
        }
        ensure!((d - s).abs() <= tol, "sdf_rel is {d} instead of {s}");
        effect("sdfv_rel", v, s, spec.sd(sub(p, v64(v))), tol)?;
        if let Some(v) = pen {
            effect("penetrates_rel", v, s, spec.sd(sub(p, v64(v))), tol)?;
        }
    }
    // point first: the relative transform places the shape, its local point `l` at the origin
    {
        let sim = Spot { p: [0.0; 3], ..*at }.sim();
        let spot = Spot { p: mul(sim.apply(l), -1.0).map(|x| x as f32), ..*at };
        let (rel, sim) = (T::make(&spot), spot.sim());
        let p = sim.unapply([0.0; 3]);
        let s = spec.sd(p) * sim.k;
        let tol = 1e-5 * (spec.size() * sim.k + len(sim.p)) + 1e-30;
        let c = lib("Point.collides_rel", || CollidesRel3d::<S>::collides_rel(&Point, shape, &rel))?;
        let pen = lib("Point.penetrates_rel", || PenetratesRel3d::<S>::penetrates_rel(&Point, shape, &rel))?;
        let d = lib("Point.sdf_rel", || SdfRel3d::<S>::sdf_rel(&Point, shape, &rel))? as f64;
        let v = lib("Point.sdfv_rel", || SdfvRel3d::<S>::sdfv_rel(&Point, shape, &rel))?;
        ensure!(c == pen.is_some(), "Point.collides_rel is {c}, Point.penetrates_rel {pen:?}");
        if s.abs() > tol {
            ensure!(c == (s < 0.0), "Point.collides_rel is {c}, but the signed distance is {s}");
        }
        ensure!((d - s).abs() <= tol, "Point.sdf_rel is {d} instead of {s}");
        let after = |v: Vec3| spec.sd(sim.unapply(v64(v))) * sim.k;
        effect("Point.sdfv_rel", v, s, after(v), tol)?;
        if let Some(v) = pen {
            effect("Point.penetrates_rel", v, s, after(v), tol)?;
        }
    }
    // world forms
    {
        let sim = at.sim();
        let q = sim.apply(l);
        let spot = Spot { p: q.map(|x| x as f32), ..*own };
        let (ta, tb) = (T::make(at), T::make(&spot));
        let q = spot.sim().p;
        let s = spec.sd(sim.unapply(q)) * sim.k;
        let tol = 2e-5 * (spec.size() * sim.k + len(sim.p) + len(q)) * (1.0 + sim.k / own.k as f64) + 1e-30;
        let cs = [
            lib("collides", || shape.collides(&ta, &Point, &tb))?,
            lib("collides_v2", || (shape, &ta).collides_v2(&Point, &tb))?,
            lib("collides_v3", || (shape, &ta).collides_v3((&Point, &tb)))?,
            lib("Point.collides", || Collides3d::<S, T>::collides(&Point, &tb, shape, &ta))?,
            lib("Point.collides_v2", || (&Point, &tb).collides_v2(shape, &ta))?,
            lib("Point.collides_v3", || (&Point, &tb).collides_v3((shape, &ta)))?,
        ];
        if s.abs() > tol {
            ensure!(cs == [s < 0.0; 6], "collides, v2, v3 in both orders say {cs:?}, but the signed distance is {s}");
        }
        let pen = lib("penetrates", || shape.penetrates(&ta, &Point, &tb))?;
        let nep = lib("Point.penetrates", || Penetrates3d::<S, T>::penetrates(&Point, &tb, shape, &ta))?;
        if s.abs() > tol {
            ensure!(pen.is_some() == (s < 0.0), "penetrates is {pen:?}, but the signed distance is {s}");
            ensure!(nep.is_some() == (s < 0.0), "Point.penetrates is {nep:?}, but the signed distance is {s}");
        }
        if let Some(v) = pen {
            effect("penetrates", v, s, spec.sd(sim.unapply(sub(q, v64(v)))) * sim.k, tol)?;
        }
        if let Some(v) = nep {
            effect("Point.penetrates", v, s, spec.sd(sim.unapply(add(q, v64(v)))) * sim.k, tol)?;
        }
    }
    Ok(label)
}

fn any<T: Rep>(spec: Spec, at: &Spot, l: V, own: &Spot) -> mckit::Verdict {
    match spec {
        Spec::Ball(r) => judge::<Ball, T>(&Ball::with_radius(r), spec, at, l, own),
        Spec::Box(x, y, z) => judge::<Box3d, T>(&Box3d::with_halfdims(x, y, z), spec, at, l, own),
    }
}

pub fn c23(run: &mut Run) {
    run.assume("verdicts are not judged within rounding of contact");
    run.assume("scale is uniform");
    let specs = [
        Spec::Ball(1.0),
        Spec::Ball(0.3),
        Spec::Ball(50.0),
        Spec::Ball(0.001),
        Spec::Ball(0.0),
        Spec::Box(1.0, 1.0, 1.0),
        Spec::Box(2.0, 1.0, 3.0),
        Spec::Box(0.1, 5.0, 0.7),
        Spec::Box(1.0, 0.0, 1.0),
        Spec::Box(0.0, 0.0, 2.0),
        Spec::Box(0.0, 0.0, 0.0),
        Spec::Box(0.001, 0.002, 0.003),
        Spec::Box(100.0, 50.0, 1.0),
        Spec::Box(3.0, 2.0, 0.5),
        Spec::Ball(3000.0),
        Spec::Box(1500.0, 4000.0, 2500.0),
    ];
    // in units of the half size: around and inside every face, edge and corner; ties, the centre and the faces themselves
    let f: Vec<f64> = if run.quick() {
        vec![-300.0, -2.3, -1.0, -0.97, -0.62, -0.2, -1e-3, 0.0, 1e-6, 0.35, 0.9, 1.001, 1.3, 7.7]
    } else {
        vec![-1e4, -20.0, -2.3, -1.3, -1.0, -0.99, -0.62, -0.2, -0.05, -1e-8, 0.0, 1e-5, 1e-3, 0.11, 0.35, 0.5, 0.62, 0.9, 1.0, 1.001, 1.01, 1.3, 3.7, 250.0]
    };
    let n = f.len();
    for kind in KINDS {
        let z = [0.0, 0.0, 1.0];
        let mut ats = vec![Spot::new(z, 0.0, 1.0, [0.0; 3]), Spot::new(z, 0.0, 1.0, [3.0, -2.0, 0.5])];
        let mut owns = vec![Spot::new(z, 0.0, 1.0, [0.0; 3])];
        if kind.scales() {
            ats.push(Spot::new(z, 0.0, 2.5, [0.5, 1.0, -8.0]));
            ats.push(Spot::new(z, 0.0, 0.02, [0.1, 0.0, -0.3]));
            ats.push(Spot::new(z, 0.0, 60.0, [-30.0, 10.0, 5.0]));
            owns.push(Spot::new(z, 0.0, 0.4, [0.0; 3]));
        }
        if kind.turns() {
            let pi = std::f64::consts::PI;
            for (axis, a, k) in [
                (z, pi / 2.0, 1.0),
                ([1.0, 0.0, 0.0], pi / 2.0, 1.0),
                ([0.0, 1.0, 0.0], 1.0, 1.0),
                ([1.0, 2.0, 3.0], 2.1, 1.0),
                ([-1.0, 0.3, 0.2], pi, 0.25),
                ([0.3, -1.0, 0.5], -0.9, 3.0),
            ] {
                ats.push(Spot::new(axis, a, k, [1.5, -0.5, 4.0]));
            }
            owns.push(Spot::new([1.0, 1.0, 0.0], 1.3, 1.0, [0.0; 3]));
            owns.push(Spot::new([0.2, 0.5, -1.0], 2.8, 2.0, [0.0; 3]));
        }
        let local = |ix: &[usize]| {
            let h = specs[ix[0]].half();
            let m = specs[ix[0]].size().max(1e-3);
            [2, 3, 4].map(|i| f[ix[i]] * if h[i - 2] > 0.0 { h[i - 2] } else { 0.3 * m })
        };
        run.lattice(
            &format!("points-{kind:?}"),
            &[specs.len(), ats.len(), n, n, n, owns.len()],
            &|ix| format!("{:?} at {:?} and a point at {:?} in its space, itself turned and scaled as {:?}, by {kind:?}", specs[ix[0]], ats[ix[1]], local(ix), owns[ix[5]]),
            &|ix| {
                let (spec, at, l, own) = (specs[ix[0]], &ats[ix[1]], local(ix), &owns[ix[5]]);
                with_kind!(kind, any(spec, at, l, own))
            },
        );
    }
    // sizes and proportions of any magnitude
    let extents: Vec<f32> = {
        let n = run.tier.pick(16, 30);
        (0..n).map(|i| 10f64.powf(-3.0 + 7.0 * i as f64 / (n - 1) as f64) as f32).collect()
    };
    let (e, some) = (extents.len(), [0.0f64, 0.4, -0.93, 1.2, -30.0]);
    let home = Spot::new([0.0, 0.0, 1.0], 0.0, 1.0, [0.0; 3]);
    let spec = |ix: &[usize]| Spec::Box(extents[ix[0]], extents[ix[1]], extents[ix[2]]);
    let local = |ix: &[usize]| [0, 1, 2].map(|i| some[ix[3 + i]] * extents[ix[i]] as f64);
    run.lattice(
        "proportions",
        &[e, e, e, some.len(), some.len(), some.len()],
        &|ix| format!("{:?} and a point at {:?}", spec(ix), local(ix)),
        &|ix| any::<Translate3d>(spec(ix), &home, local(ix), &home),
    );
    // any distance
    let range: Vec<f64> = {
        let per = run.tier.pick(3, 6);
        (-3 * per..=4 * per).flat_map(|i| [10f64.powf(i as f64 / per as f64), -1.1 * 10f64.powf(i as f64 / per as f64)]).chain([0.0]).collect()
    };
    let few = [Spec::Ball(1.0), Spec::Ball(80.0), Spec::Box(1.0, 2.0, 0.5), Spec::Box(30.0, 3.0, 200.0)];
    let local = |ix: &[usize]| [1, 2, 3].map(|i| range[ix[i]]);
    run.lattice(
        "reach",
        &[few.len(), range.len(), range.len(), range.len()],
        &|ix| format!("{:?} and a point at {:?}", few[ix[0]], local(ix)),
        &|ix| any::<Vec3>(few[ix[0]], &home, local(ix), &home),
    );
    // along directions all around: next to the centre, next to the surface, far away
    let ring = run.tier.pick(10usize, 24);
    let at_sd: Vec<f64> = vec![-0.9, -0.5, -0.1, -0.01, -1e-3, 1e-3, 0.01, 0.1, 0.9, 40.0, 3e3];
    let centre = [0.1, 1e-2, 1e-3, 1e-4, 1e-5, 1e-7];
    let around = |ix: &[usize]| -> V {
        let (th, z) = (std::f64::consts::TAU * ix[1] as f64 / (2 * ring) as f64, -0.95 + 1.9 * ix[2] as f64 / (ring - 1) as f64);
        let u = [th.cos() * (1.0 - z * z).sqrt(), th.sin() * (1.0 - z * z).sqrt(), z];
        let (s, m) = (specs[ix[0]], specs[ix[0]].size().max(1e-3));
        if ix[3] < centre.len() {
            return mul(u, centre[ix[3]] * m);
        }
        // (no deeper than it can be: then near the centre, where the squares of coordinates must not underflow)
        let want = (at_sd[ix[3] - centre.len()] * m).max(s.sd([0.0; 3]) + 1e-6 * m);
        let (mut lo, mut hi) = (0.0, 2.0 * m + want.abs());
        for _ in 0..60 {
            let x = 0.5 * (lo + hi);
            if s.sd(mul(u, x)) < want {
                lo = x
            } else {
                hi = x
            }
        }
        mul(u, hi)
    };
    let poses = [
        Spot::new([0.0, 0.0, 1.0], 0.0, 1.0, [0.0; 3]),
        Spot::new([1.0, 2.0, -3.0], 2.1, 1.0, [1.5, -0.5, 4.0]),
        Spot::new([0.3, -1.0, 0.5], -0.9, 3.0, [-2.0, 0.0, 1.0]),
        Spot::new([0.3, 1.0, 0.5], 3.1, 0.1, [0.0, 0.5, 0.0]),
    ];
    let kinds = [Kind::Full, Kind::Isotropic, Kind::Engine];
    run.lattice(
        "around",
        &[specs.len(), 2 * ring, ring, at_sd.len() + centre.len(), poses.len(), kinds.len()],
        &|ix| format!("{:?} at {:?} and a point at {:?} in its space, by {:?}", specs[ix[0]], poses[ix[4]], around(ix), kinds[ix[5]]),
        &|ix| {
            let (spec, at, l, own, kind) = (specs[ix[0]], &poses[ix[4]], around(ix), &poses[0], kinds[ix[5]]);
            with_kind!(kind, any(spec, at, l, own))
        },
    );
    // support points
    let c: Vec<f32> = run.tier.pick(
        vec![-1.0, -0.3, -0.05, -1e-3, 0.0, 1e-6, 4e-3, 0.02, 0.7, 0.98, 1.0],
        vec![-1.0, -0.97, -0.7, -0.3, -0.05, -1e-3, -1e-6, 0.0, 1e-5, 4e-3, 0.02, 0.1, 0.5, 0.7, 0.98, 0.999, 1.0],
    );
    let mags = [1.0f32, 1e-10, 1e10, 37.0, 2e3, 1e-3, 1e6];
    let dir = |ix: &[usize]| Vec3::new(c[ix[1]], c[ix[2]], c[ix[3]]) * mags[ix[4]];
    run.lattice(
        "support",
        &[specs.len() + 1, c.len(), c.len(), c.len(), mags.len()],
        &|ix| format!("{} along {:?}", specs.get(ix[0]).map(|s| format!("{s:?}")).unwrap_or("Point".into()), dir(ix)),
        &|ix| {
            let d = dir(ix);
            if d == Vec3::ZERO {
                return Ok("no direction");
            }
            let (p, spec) = match specs.get(ix[0]) {
                Some(&s @ Spec::Ball(r)) => (lib("extreme_point", || Ball::with_radius(r).extreme_point(d))?, s),
                Some(&s @ Spec::Box(x, y, z)) => (lib("extreme_point", || Box3d::with_halfdims(x, y, z).extreme_point(d))?, s),
                None => (lib("extreme_point", || Point.extreme_point(d))?, Spec::Ball(0.0)),
            };
            ensure!(p.is_finite(), "extreme point is {p:?}");
            let tol = 1e-6 * spec.size();
            let p = v64(p);
            ensure!(spec.sd(p) <= tol, "extreme point {p:?} is outside of the shape");
            let u = mul(v64(d), 1.0 / len(v64(d)));
            let h = spec.half();
            let want = match spec {
                Spec::Ball(r) => r as f64,
                Spec::Box(..) => (0..3).map(|i| h[i] * u[i].abs()).sum(),
            };
            ensure!(dot(p, u) >= want - tol, "extreme point {p:?} reaches {} along the direction, the shape reaches {want}", dot(p, u));
            Ok("support")
        },
    );
    // directions that hardly leave an axis or a plane
    let slight: Vec<f32> = {
        let n = run.tier.pick(24, 96);
        (0..n).flat_map(|i| [1.0f64, -1.0].map(|s| (s * 10f64.powf(-6.0 * (i as f64 + 0.4) / n as f64)) as f32)).chain([0.0]).collect()
    };
    let long = [[1.0f32, 2.0, 3.0], [50.0, 1.0, 1.0], [1.0, 50.0, 1.0], [1.0, 1.0, 50.0], [0.01, 2.0, 2.0]];
    let k = slight.len();
    let grazing = |ix: &[usize]| {
        let mut d = [slight[ix[2]]; 3];
        d[ix[1] / 2] = if ix[1] % 2 == 0 { 1.0 } else { -1.0 };
        d[(ix[1] / 2 + 1) % 3] = slight[ix[3]];
        Vec3::from(d)
    };
    run.lattice(
        "grazing",
        &[long.len(), 6, k, k],
        &|ix| format!("box {:?} along {:?}", long[ix[0]], grazing(ix)),
        &|ix| {
            let (h, d) = (long[ix[0]], grazing(ix));
            let p = v64(lib("extreme_point", || Box3d::with_halfdims(h[0], h[1], h[2]).extreme_point(d))?);
            let d = v64(d);
            let size: f64 = h.iter().map(|x| *x as f64).fold(0.0, f64::max);
            ensure!((0..3).all(|i| p[i].abs() <= h[i] as f64 * 1.000001), "extreme point {p:?} is outside of the shape");
            let want: f64 = (0..3).map(|i| h[i] as f64 * d[i].abs()).sum();
            ensure!(dot(p, d) >= want - 1e-6 * size, "extreme point {p:?} reaches {} along the direction, the shape reaches {want}", dot(p, d));
            Ok("support")
        },
    );
    // covering
    run.lattice(
        "cover-flat",
        &[3, 3, k, k],
        &|ix| format!("box covers the point {:?} times {}", grazing(&[0, 2 * ix[0], ix[2], ix[3]]), [1.0, 3.0, 1e4][ix[1]]),
        &|ix| {
            let p = grazing(&[0, 2 * ix[0], ix[2], ix[3]]) * [1.0, 3.0, 1e4][ix[1]];
            let mut x = Box3d::default();
            lib("cover", || x.cover(&p))?;
            ensure!(x.halfsize == p.abs(), "half size is {:?} instead of {:?}", x.halfsize, p.abs());
            let mut x = Box3d::with_halfdims(0.5, 0.01, 1e-4);
            lib("cover", || x.cover(&p))?;
            let want = p.abs().max(Vec3::new(0.5, 0.01, 1e-4));
            ensure!(x.halfsize == want, "half size is {:?} instead of {want:?}", x.halfsize);
            Ok("cover")
        },
    );
    let hs = [0.0f32, 0.5, 2.0];
    let ps = [-3.0f32, -2.0, -1.0, -0.0, 0.1, 0.6, 2.0, 7.0];
    let es = [1.0f32, 1e-6, 1e-25, 1e6, 1e30];
    let (a, b) = (hs.len(), ps.len());
    run.lattice(
        "cover",
        &[a, a, a, b, b, b, es.len()],
        &|ix| format!("box {} {} {} covers {} {} {}, all times {:e}", hs[ix[0]], hs[ix[1]], hs[ix[2]], ps[ix[3]], ps[ix[4]], ps[ix[5]], es[ix[6]]),
        &|ix| {
            let h = Vec3::new(hs[ix[0]], hs[ix[1]], hs[ix[2]]) * es[ix[6]];
            let mut x = Box3d::new(h);
            let p = Vec3::new(ps[ix[3]], ps[ix[4]], ps[ix[5]]) * es[ix[6]];
            lib("cover", || x.cover(&p))?;
            let want = h.max(p.abs());
            ensure!(x.halfsize == want, "half size is {:?} instead of {want:?}", x.halfsize);
            Ok("cover")
        },
    );
}
