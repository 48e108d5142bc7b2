//! C09, C10, C25: support points, bounding boxes, polygon validation and constructors.
use crate::domains::*;
use crate::scene::*;
use auburn::col2d::*;
use mckit::geo::{self, Diff};
use mckit::{ensure, lib, Run};
use std::f64::consts::TAU;

const MAGNITUDES: [f64; 8] = [1.0, 1e-10, 3e-4, 7e3, 1e10, 0.05, 130.0, 1e6];

fn v64(v: Vec2) -> [f64; 2] {
    [v.x as f64, v.y as f64]
}

/// Directions: even steps through the axes and diagonals, slightly off them, and the normals of `r`'s edges.
fn dirs(n: usize) -> Vec<f64> {
    let mut v: Vec<f64> = (0..n).map(|i| TAU * i as f64 / n as f64).collect();
    v.extend((0..8).flat_map(|i| [1e-6, -1e-3, 0.2, 4e-3, -4e-3, 0.015, -0.015, 0.05, -0.05].map(|e| TAU * i as f64 / 8.0 + e)));
    v
}

fn exact_dir(th: f64, m: f64) -> Vec2 {
    // axis directions have exact zeros
    let q = th / (TAU / 4.0);
    let u = if (q - q.round()).abs() < 1e-12 {
        [[1.0, 0.0], [0.0, 1.0], [-1.0, 0.0], [0.0, -1.0]][q.round() as usize % 4]
    } else {
        [th.cos(), th.sin()]
    };
    Vec2::new((u[0] * m) as f32, (u[1] * m) as f32)
}

/// `p` must lie in the set whose signed distance is `sd` and reach `support` along `d`.
fn judge(what: &str, p: Vec2, d: Vec2, support: f64, sd: f64, tol: f64) -> Result<(), String> {
    ensure!(p.is_finite(), "{what} along {d:?} is {p:?}");
    let u = v64(d);
    let l = geo::len(u);
    let got = geo::dot(v64(p), [u[0] / l, u[1] / l]);
    ensure!(got >= support - tol, "{what} along {d:?} is {p:?}, which reaches {got:.7}, but the shape reaches {support:.7}");
    ensure!(sd <= tol, "{what} along {d:?} is {p:?}, which lies {sd:.7} outside of the shape");
    Ok(())
}

fn unit(d: Vec2) -> [f64; 2] {
    let u = v64(d);
    let l = geo::len(u);
    [u[0] / l, u[1] / l]
}

pub fn c09(run: &mut Run) {
    run.assume("directions have magnitude 1e-10 to 1e10; scales are uniform");
    let specs = solos();
    let factors = [1.0f32, 1e-3, 0.02, 7.0, 1e4];
    let shapes: Vec<Vec<Box<dyn Solo>>> =
        factors.iter().map(|&f| specs.iter().map(|s| solo(&s.scaled(f))).collect()).collect();
    let ds = dirs(run.tier.pick(48, 360));
    run.lattice(
        "local",
        &[specs.len(), factors.len(), ds.len(), MAGNITUDES.len()],
        &|ix| format!("{} along {:?}", shapes[ix[1]][ix[0]].name(), exact_dir(ds[ix[2]], MAGNITUDES[ix[3]])),
        &|ix| {
            let s = &*shapes[ix[1]][ix[0]];
            let d = exact_dir(ds[ix[2]], MAGNITUDES[ix[3]]);
            let p = s.extreme(d)?;
            let r = s.reference();
            judge("the support point", p, d, r.support(unit(d)), r.point(v64(p)), 2e-6 * r.size())?;
            Ok("support point")
        },
    );
    for kind in KINDS {
        let mut ps = poses(kind);
        if kind == Kind::Full {
            ps.extend((0..12).map(|i| Spot { a: 0.55 * i as f32, k: [1.0, 0.25, 3.0][i % 3], p: [0.3 * i as f32, -1.0] }));
        }
        run.lattice(
            &format!("placed-{kind:?}"),
            &[specs.len(), ps.len(), ds.len(), 3],
            &|ix| format!("{} at {:?} along {:?}", shapes[0][ix[0]].name(), ps[ix[1]], exact_dir(ds[ix[2]], MAGNITUDES[ix[3]])),
            &|ix| {
                let (s, t) = (&*shapes[0][ix[0]], &ps[ix[1]]);
                let d = exact_dir(ds[ix[2]], MAGNITUDES[ix[3]]);
                let r = s.reference().place(&t.sim());
                let tol = 2e-6 * r.size() + 1e-6 * (t.coord() + t.k as f64 * s.reference().size());
                for p in s.extreme_t(kind, t, d)? {
                    judge("the placed support point", p, d, r.support(unit(d)), r.point(v64(p)), tol)?;
                }
                Ok("support point")
            },
        );
    }
    // polygons of any number of points, listed in any order, with points repeated, on edges or within
    let most = run.tier.pick(48usize, 260);
    let layout = |n: usize, k: usize| -> Vec<[f32; 2]> {
        let round = regular(n, 1.0, 0.3);
        let stride = |step: usize| -> Vec<[f32; 2]> {
            let step = (step.max(1)..).find(|s| (2..=*s).all(|d| s % d > 0 || n % d > 0)).unwrap();
            (0..n).map(|i| round[i * step % n]).collect()
        };
        match k {
            0 => round,
            1 => round.into_iter().rev().collect(),
            2 => stride(n / 2),
            3 => stride(2),
            4 => stride(n / 3 + 1),
            // each twice in a row; and all again
            5 => round.iter().flat_map(|p| [*p, *p]).collect(),
            6 => round.iter().chain(&round).copied().collect(),
            // edges subdivided
            7 => (0..n)
                .flat_map(|i| {
                    let (p, q) = (round[i], round[(i + 1) % n]);
                    (0..4).map(move |j| [p[0] + (q[0] - p[0]) * j as f32 / 4.0, p[1] + (q[1] - p[1]) * j as f32 / 4.0])
                })
                .collect(),
            // farthest ones last, after points within; and one of them alone at the end
            8 => round.iter().map(|p| [p[0] * 0.5, p[1] * 0.5]).chain(round.iter().copied()).collect(),
            9 => round[1..].iter().map(|p| [p[0] * 0.3, p[1] * 0.3]).chain([round[0]]).collect(),
            10 => pile(n, 1.0),
            // alternating sides of a long strip
            _ => (0..n).map(|i| [i as f32 * 0.2 - 0.1 * n as f32, if i % 2 == 0 { 0.5 } else { -0.5 }]).collect(),
        }
    };
    let polys: Vec<Vec<(Box<dyn Solo>, String)>> = (1..=most)
        .map(|n| {
            (0..12)
                .map(|k| {
                    let s = Spec::poly(&format!("layout {k}"), &layout(n, k));
                    (solo(&s), s.name())
                })
                .collect()
        })
        .collect();
    let round: Vec<f64> = (0..run.tier.pick(64, 400)).map(|i| TAU * i as f64 / run.tier.pick(64.0, 400.0) + 0.011).collect();
    run.lattice(
        "points",
        &[most, 12, round.len() + 4],
        &|ix| format!("{} of {} distinct points, direction {}", polys[ix[0]][ix[1]].1, ix[0] + 1, ix[2]),
        &|ix| {
            let s = &*polys[ix[0]][ix[1]].0;
            let d = if ix[2] < 4 { exact_dir(TAU * ix[2] as f64 / 4.0, 1.0) } else { exact_dir(round[ix[2] - 4], 2.0) };
            let r = s.reference();
            let p = s.extreme(d)?;
            judge("the support point", p, d, r.support(unit(d)), r.point(v64(p)), 2e-6 * r.size())?;
            let t = Spot { a: 0.7, k: 1.5, p: [0.3, -2.0] };
            let placed = r.place(&t.sim());
            for p in s.extreme_t(Kind::Full, &t, d)? {
                judge("the placed support point", p, d, placed.support(unit(d)), placed.point(v64(p)), 4e-6 * (placed.size() + 1.0))?;
            }
            Ok("support point")
        },
    );
    // any number of points, one of the first, last or evenly spread ones farthest
    let most = run.tier.pick(1100usize, 5000);
    run.lattice(
        "crowd",
        &[most, 24, 4],
        &|ix| format!("{} points, farthest one in way {}, direction {}", ix[0] + 1, ix[1], ix[2]),
        &|ix| {
            let n = ix[0] + 1;
            let k = match ix[1] {
                i if i < 8 => i.min(n - 1),
                i if i < 16 => n - 1 - (i - 8).min(n - 1),
                i => (i - 15) * n / 9,
            };
            let d = [Vec2::X, Vec2::new(-1.0, 1.0), Vec2::new(0.1, -2.0), Vec2::new(-3.0, -1.0)][ix[2]];
            let mut p: Vec<Vec2> = (0..n).map(|i| Vec2::new((i as f32).sin(), (i as f32).cos())).collect();
            p[k] = 3.0 * d;
            let got = lib("extreme_point", || Poly2d::new(&p).extreme_point(d))?;
            ensure!(got == p[k], "the support point along {d:?} is {got:?} instead of {:?}", p[k]);
            Ok("support point")
        },
    );
    // every list of points of a small grid, as a polygon and in every enum, directions of any length that f32 can multiply
    let lengths = [1.0f64, 1e-30, 1e-18, 1e18, 1e30];
    for (n, side) in run.tier.pick(vec![(1, 5), (2, 5), (3, 4), (4, 3)], vec![(1, 9), (2, 7), (3, 5), (4, 4), (5, 3)]) {
        let cells: usize = side * side;
        let lists = cells.pow(n as u32);
        let points = |i: usize| -> Vec<[f32; 2]> {
            (0..n).map(|k| i / cells.pow(k as u32) % cells).map(|c| [(c % side) as f32 - 0.4 * side as f32, 0.3 * side as f32 - (c / side) as f32]).collect()
        };
        let nd = 40;
        let along = |k: usize| if k < 24 { TAU * k as f64 / 24.0 } else { TAU * k as f64 / 16.0 + 0.19 };
        run.lattice(
            &format!("lists-{n}"),
            &[lists, nd, 4],
            &|ix| format!("{:?} as representation {}, direction {}", points(ix[0]), ix[2], ix[1]),
            &|ix| {
                let s = Spec::poly("list", &points(ix[0]));
                let d = exact_dir(along(ix[1]), lengths[(ix[0] / 7 + ix[1]) % lengths.len()]);
                let p = lib("extreme_point", || match ix[2] {
                    0 => s.poly2d().extreme_point(d),
                    1 => s.shape2d().extreme_point(d),
                    2 => s.mine().extreme_point(d),
                    _ => s.nest().extreme_point(d),
                })?;
                let pts = points(ix[0]);
                let u = unit(d);
                let reach = |q: &[f32; 2]| q[0] as f64 * u[0] + q[1] as f64 * u[1];
                let most = pts.iter().map(reach).fold(f64::NEG_INFINITY, f64::max);
                ensure!(pts.iter().any(|q| q[0] == p.x && q[1] == p.y), "the support point along {d:?} is {p:?}, which is none of the points");
                let got = reach(&[p.x, p.y]);
                ensure!(got >= most - 1e-6 * side as f64, "the support point along {d:?} is {p:?}, which reaches {got:.7}, but the shape reaches {most:.7}");
                Ok("support point")
            },
        );
    }
    crate::memory::support(run);
    // the Minkowski difference the queries search
    let w = World::new(run.tier, &|_| true);
    let ds = dirs(run.tier.pick(12, 48));
    let rels: Vec<(Kind, Spot)> = KINDS
        .iter()
        .flat_map(|&k| poses(k).into_iter().map(move |p| (k, p)))
        .collect();
    run.lattice(
        "difference",
        &[w.pairs.len(), rels.len(), ds.len(), 2],
        &|ix| format!("difference of {} {:?} along {:?}", w.pairs[ix[0]].name(), rels[ix[1]], exact_dir(ds[ix[2]], MAGNITUDES[ix[3] * 2])),
        &|ix| {
            let p = &*w.pairs[ix[0]];
            let (kind, s) = &rels[ix[1]];
            let d = exact_dir(ds[ix[2]], MAGNITUDES[ix[3] * 2]);
            let r = Diff::new(p.ra(), &p.rb().place(&s.sim()));
            let m = p.diff_extreme(*kind, s, d)?;
            let size = p.ra().size() + p.rb().size() * s.k as f64;
            judge("the support point of the difference", m, d, r.support(unit(d)), r.point(v64(m)), 3e-6 * size + 1e-6 * s.coord())?;
            Ok("support point")
        },
    );
}

pub fn c10(run: &mut Run) {
    run.assume("coordinates are finite");
    let grid: Vec<f32> = vec![-2.5, -1.0, -0.0, 0.0, 0.3, 4.0];
    let scales = [1.0f32, 1e-6, 1e6, 1e-30, 1e30];
    // every list of up to n points
    for n in 0..=run.tier.pick(3usize, 4) {
        let dims: Vec<usize> = std::iter::once(scales.len()).chain((0..2 * n).map(|_| grid.len())).collect();
        let pts = |ix: &[usize]| -> Vec<Vec2> {
            (0..n).map(|i| scales[ix[0]] * Vec2::new(grid[ix[1 + 2 * i]], grid[ix[2 + 2 * i]])).collect()
        };
        run.lattice(&format!("polygon-{n}"), &dims, &|ix| format!("bounding box of {:?}", pts(ix)), &|ix| {
            let p = pts(ix);
            let b = lib("symmetric_bounding_box", || Poly2d::new(&p).symmetric_bounding_box())?;
            let want = p.iter().fold(Vec2::ZERO, |m, q| m.max(q.abs()));
            ensure!(b.halfsize == want, "bounding box has half size {:?} instead of {want:?}", b.halfsize);
            Ok("polygon")
        });
    }
    // a box with one more point at its side, just inside or outside, at every place of the list
    let over: Vec<f32> = {
        let n = run.tier.pick(60, 400);
        (0..n).map(|i| i as f32 * 2.5 / n as f32).chain((1..=40).map(|i| 1.0 + 2f32.powi(-i / 2) * if i % 2 == 0 { 1.0 } else { -1.0 })).collect()
    };
    let beside = [0.0f32, -0.0, 1e-3, 0.2, 0.7, 0.999, 1.0];
    let tip = |ix: &[usize]| -> Vec<Vec2> {
        let mut p = vec![Vec2::new(-1.0, -1.0), Vec2::new(1.0, -1.0), Vec2::new(1.0, 1.0), Vec2::new(-1.0, 1.0)];
        let (a, b) = (over[ix[0]], beside[ix[1]]);
        p.insert(ix[2], [Vec2::new(a, b), Vec2::new(-a, -b), Vec2::new(b, a), Vec2::new(-b, -a)][ix[3]]);
        p
    };
    run.lattice("tip", &[over.len(), beside.len(), 5, 4], &|ix| format!("bounding box of {:?}", tip(ix)), &|ix| {
        let p = tip(ix);
        let b = lib("symmetric_bounding_box", || Poly2d::new(&p).symmetric_bounding_box())?;
        let want = p.iter().fold(Vec2::ZERO, |m, q| m.max(q.abs()));
        ensure!(b.halfsize == want, "bounding box has half size {:?} instead of {want:?}", b.halfsize);
        Ok("polygon")
    });
    // one outlying point among many
    let many = run.tier.pick(40usize, 300);
    run.lattice(
        "many-points",
        &[many, many, 4, 2],
        &|ix| format!("{} points, number {} outlying on side {}", ix[0] + 1, ix[1] % (ix[0] + 1), ix[2]),
        &|ix| {
            let (n, k) = (ix[0] + 1, ix[1] % (ix[0] + 1));
            let mut p: Vec<Vec2> = (0..n).map(|i| if ix[3] == 0 { Vec2::new((i as f32).sin(), (i as f32).cos()) } else { Vec2::new(0.5, -0.25) }).collect();
            p[k] = [Vec2::new(3.0, 0.1), Vec2::new(-3.0, 0.1), Vec2::new(0.1, 3.0), Vec2::new(0.1, -3.0)][ix[2]];
            let b = lib("symmetric_bounding_box", || Poly2d::new(&p).symmetric_bounding_box())?;
            let want = p.iter().fold(Vec2::ZERO, |m, q| m.max(q.abs()));
            ensure!(b.halfsize == want, "bounding box has half size {:?} instead of {want:?}", b.halfsize);
            Ok("polygon")
        },
    );
    // any number of points, one of the first, last or evenly spread ones outlying
    let crowds: Vec<usize> = (1..=run.tier.pick(2500usize, 10000)).chain([12_000, 20_000, 33_000, 65_537, 100_000, 300_000]).collect();
    run.lattice(
        "crowd",
        &[crowds.len(), 24, 4],
        &|ix| format!("{} points, outlying in way {} on side {}", crowds[ix[0]], ix[1], ix[2]),
        &|ix| {
            let n = crowds[ix[0]];
            let k = match ix[1] {
                i if i < 8 => i.min(n - 1),
                i if i < 16 => n - 1 - (i - 8).min(n - 1),
                i => (i - 15) * n / 9,
            };
            let mut p = vec![Vec2::new(0.5, -0.25); n];
            p[k] = [Vec2::new(3.0, 0.1), Vec2::new(-3.0, 0.1), Vec2::new(0.1, 3.0), Vec2::new(0.1, -3.0)][ix[2]];
            let b = lib("symmetric_bounding_box", || Poly2d::new(&p).symmetric_bounding_box())?;
            let want = p[k].abs().max(Vec2::new(0.5, 0.25));
            let want = if n == 1 { p[k].abs() } else { want };
            ensure!(b.halfsize == want, "bounding box has half size {:?} instead of {want:?}", b.halfsize);
            Ok("polygon")
        },
    );
    let radii = [0.0f32, 1e-20, 0.01, 0.5, 1.0, 3.25, 1e5, 1e20];
    run.lattice("ball-box", &[radii.len(), radii.len()], &|ix| format!("dimensions {} {}", radii[ix[0]], radii[ix[1]]), &|ix| {
        let (x, y) = (radii[ix[0]], radii[ix[1]]);
        let b = lib("symmetric_bounding_box", || Ball::with_radius(x).symmetric_bounding_box())?;
        ensure!(b.halfsize == Vec2::splat(x), "bounding box of a ball of radius {x} has half size {:?}", b.halfsize);
        let b = lib("symmetric_bounding_box", || Ball::new(y).symmetric_bounding_box())?;
        ensure!(b.halfsize == Vec2::splat(y), "bounding box of a ball of radius {y} has half size {:?}", b.halfsize);
        let b = lib("symmetric_bounding_box", || Box2d::with_halfdims(x, y).symmetric_bounding_box())?;
        ensure!(b.halfsize == Vec2::new(x, y), "bounding box of a box {x} {y} has half size {:?}", b.halfsize);
        let b = lib("symmetric_bounding_box", || Box2d::new(Vec2::new(x, y)).symmetric_bounding_box())?;
        ensure!(b.halfsize == Vec2::new(x, y), "bounding box of a box {x} {y} has half size {:?}", b.halfsize);
        let b = lib("symmetric_bounding_box", || Point.symmetric_bounding_box())?;
        ensure!(b.halfsize == Vec2::ZERO, "bounding box of a point has half size {:?}", b.halfsize);
        Ok("ball and box")
    });
    // growing a box by points
    let starts = [Vec2::ZERO, Vec2::new(0.5, 2.0), Vec2::new(3.0, 0.0)];
    let (cx, cy) = ([-4.0f32, -1.0, -0.25, 0.0, 0.75, 2.5], [-3.0f32, -0.5, 0.0, 1.5, 1e-3]);
    let ops: Vec<Vec2> = cx.iter().flat_map(|&x| cy.iter().map(move |&y| Vec2::new(x, y))).collect();
    for (k, s) in starts.iter().enumerate() {
        run.histories(
            &format!("cover-{k}"),
            ops.len(),
            run.tier.pick(4, 8),
            &|h| format!("box {s:?} covering {:?}", h.iter().map(|&i| ops[i]).collect::<Vec<_>>()),
            &|h| {
                let mut b = Box2d::new(*s);
                let mut want = *s;
                for &i in h {
                    lib("cover", || b.cover(&ops[i]))?;
                    want = Vec2::new(want.x.max(ops[i].x.abs()), want.y.max(ops[i].y.abs()));
                    ensure!(b.halfsize == want, "half size {:?} instead of {want:?}", b.halfsize);
                }
                let mut key = b.halfsize.x.to_bits().to_le_bytes().to_vec();
                key.extend(b.halfsize.y.to_bits().to_le_bytes());
                Ok(Some(key))
            },
        );
    }
}

/// What the documentation asks of a polygon: (some point is not a farthest one, origin not strictly inside, every
/// point strictly farther along itself than all others and origin strictly inside).
fn classify(p: &[[i64; 2]]) -> (bool, bool, bool) {
    let dot = |a: &[i64; 2], b: &[i64; 2]| a[0] * b[0] + a[1] * b[1];
    let cross = |a: &[i64; 2], b: &[i64; 2]| a[0] * b[1] - a[1] * b[0];
    let mut beaten = false;
    let mut strict = true;
    for a in p {
        for b in p {
            if dot(a, b) > dot(a, a) {
                beaten = true;
            }
            if a != b && dot(a, b) >= dot(a, a) {
                strict = false;
            }
        }
    }
    // strictly inside: no closed half plane through the origin holds all points
    // (if one does, one bounded by a line through a point does)
    let inside = !p.is_empty()
        && p.iter().all(|a| {
            *a != [0, 0] && p.iter().any(|b| cross(a, b) > 0) && p.iter().any(|b| cross(a, b) < 0)
        });
    (beaten, !inside, strict && inside)
}

/// The library's regular polygon, which must be one.
fn regular_polygon(n: usize, r: f32, up: bool) -> Result<Poly2d, String> {
    let p = lib("regular", || if up { Poly2d::regular_upright(n, r) } else { Poly2d::regular(n, r) })?;
    ensure!(p.points.len() == n, "{} points", p.points.len());
    if n == 0 {
        return Ok(p);
    }
    let first = if up { Vec2::new(0.0, r) } else { Vec2::new(r, 0.0) };
    ensure!((p.points[0] - first).length() <= 1e-6 * r, "first point is {:?}", p.points[0]);
    let mut angles = vec![];
    for q in &p.points {
        let (x, y) = (q.x as f64 / r as f64, q.y as f64 / r as f64);
        ensure!((x.hypot(y) - 1.0).abs() < 2e-6, "point {q:?} is not at the radius");
        angles.push((if up { x.atan2(y) } else { y.atan2(x) } + 1e-5).rem_euclid(TAU) - 1e-5);
    }
    angles.sort_by(f64::total_cmp);
    for (i, a) in angles.iter().enumerate() {
        let want = TAU * i as f64 / n as f64;
        ensure!((a - want).abs() < 4e-6, "points are not evenly spaced: {a} instead of {want}");
    }
    Ok(p)
}

pub fn c25(run: &mut Run) {
    run.assume("strict check: points are on integer grids scaled by powers of two, where the arithmetic is exact");
    let grids: Vec<(usize, i64)> = run.tier.pick(vec![(0, 2), (1, 3), (2, 3), (3, 2), (4, 2), (5, 1), (6, 1)], vec![(0, 3), (1, 5), (2, 5), (3, 4), (4, 2), (5, 2), (6, 1), (7, 1)]);
    for (n, g) in grids {
        let side = (2 * g + 1) as usize;
        let scales = [1.0f32, 1.0 / 1048576.0, 1048576.0];
        let nscale = if n >= 5 { 1 } else { 3 };
        let dims: Vec<usize> = std::iter::once(nscale).chain((0..n).map(|_| side * side)).collect();
        let cells = |ix: &[usize]| -> Vec<[i64; 2]> {
            ix[1..].iter().map(|&c| [(c / side) as i64 - g, (c % side) as i64 - g]).collect()
        };
        run.lattice(
            &format!("strict-check-{n}"),
            &dims,
            &|ix| format!("{:?} times {}", cells(ix), scales[ix[0]]),
            &|ix| {
                let c = cells(ix);
                let pts: Vec<Vec2> = c.iter().map(|p| scales[ix[0]] * Vec2::new(p[0] as f32, p[1] as f32)).collect();
                let poly = Poly2d::new(&pts);
                let got = lib("strict_check", || poly.strict_check())?;
                if n == 0 {
                    return Ok("empty");
                }
                let (beaten, outside, good) = classify(&c);
                ensure!(!(got && beaten), "accepted, but some point is not the farthest in its own direction");
                ensure!(!(got && outside), "accepted, but the origin is not strictly inside");
                ensure!(got || !good, "rejected, but every point is the farthest in its direction and the origin is strictly inside");
                Ok(if got { "accepted" } else { "rejected" })
            },
        );
    }
    // many points: a regular polygon is fine, unless one of its points is pulled in or missing, or half of it is
    let most = run.tier.pick(60usize, 300);
    run.lattice(
        "spoiled",
        &[most - 2, most, 5, 3],
        &|ix| format!("regular polygon of {} sides in order {}, spoiled in way {} at point {}", ix[0] + 3, ix[3], ix[2], ix[1] % (ix[0] + 3)),
        &|ix| {
            let n = ix[0] + 3;
            let k = ix[1] % n;
            if ix[1] >= n {
                return Ok("seen");
            }
            let mut p: Vec<Vec2> = regular(n, 2.0, 0.123).into_iter().map(Vec2::from).collect();
            let fine = match ix[2] {
                0 => true,
                1 => {
                    // as far inside of its neighbours' edge that the others beat it
                    p[k] *= 0.3 * (std::f64::consts::PI / n as f64).cos() as f32;
                    n <= 4
                }
                2 => {
                    p[k] = Vec2::ZERO;
                    false
                }
                3 => {
                    // one half plane
                    p.rotate_left(k);
                    p.truncate(n.div_ceil(2));
                    false
                }
                _ => {
                    // moved aside, origin outside
                    let d = Vec2::from(regular(n, 4.5, 0.123)[k]);
                    p.iter_mut().for_each(|q| *q += d);
                    false
                }
            };
            match ix[3] {
                0 => {}
                1 => p.reverse(),
                _ => {
                    let m = p.len();
                    let step = (m / 2 + 1..).find(|s| (2..=*s).all(|d| s % d > 0 || m % d > 0)).unwrap();
                    p = (0..m).map(|i| p[i * step % m]).collect();
                }
            }
            let got = lib("strict_check", || Poly2d::new(&p).strict_check())?;
            ensure!(got == fine, "{} {p:?}", if got { "accepted" } else { "rejected" });
            Ok(if got { "accepted" } else { "rejected" })
        },
    );
    let radii = [1.0f32, 1e-3, 0.37, 12.5, 1e4];
    let max = run.tier.pick(300, 1500);
    run.lattice(
        "regular",
        &[max + 1, radii.len(), 2],
        &|ix| format!("regular polygon of {} sides and radius {}{}", ix[0], radii[ix[1]], ["", ", upright"][ix[2]]),
        &|ix| {
            let p = regular_polygon(ix[0], radii[ix[1]], ix[2] == 1)?;
            if ix[0] >= 3 {
                ensure!(lib("strict_check", || p.strict_check())?, "strict check rejects it");
            }
            Ok("regular")
        },
    );
    // of every size
    let per = run.tier.pick(12, 60);
    let sweep: Vec<f32> = (-5 * per..=6 * per).map(|k| 10f64.powf(k as f64 / per as f64) as f32).collect();
    let sides = [3usize, 4, 5, 6, 7, 8, 12, 13, 24, 60, 100, 256];
    run.lattice(
        "radii",
        &[sides.len(), sweep.len(), 2],
        &|ix| format!("regular polygon of {} sides and radius {}{}", sides[ix[0]], sweep[ix[1]], ["", ", upright"][ix[2]]),
        &|ix| {
            let p = regular_polygon(sides[ix[0]], sweep[ix[1]], ix[2] == 1)?;
            ensure!(lib("strict_check", || p.strict_check())?, "strict check rejects it");
            Ok("regular")
        },
    );
    // of more sides than anyone needs
    let lots: Vec<usize> = (301..2000).chain((2000..run.tier.pick(12_000, 70_000)).step_by(97)).chain([4096, 4097, 32768, 65535, 65536, 65537, 100_000]).collect();
    run.lattice(
        "many-sides",
        &[lots.len(), 2],
        &|ix| format!("regular polygon of {} sides{}", lots[ix[0]], ["", ", upright"][ix[1]]),
        &|ix| {
            regular_polygon(lots[ix[0]], 2.5, ix[1] == 1)?;
            Ok("regular")
        },
    );
    let dims: Vec<f32> = [0.0f32, 0.5, 1.0, 3.75].into_iter().chain((-6 * 4..=6 * 4).map(|k| 10f64.powf(k as f64 / 4.0) as f32)).collect();
    run.lattice("from-box", &[dims.len(), dims.len()], &|ix| format!("box {} {}", dims[ix[0]], dims[ix[1]]), &|ix| {
        let (x, y) = (dims[ix[0]], dims[ix[1]]);
        let p = lib("from box", || Poly2d::from(Box2d::with_halfdims(x, y)))?;
        let mut got: Vec<[f64; 2]> = p.points.iter().map(|q| [q.x as f64 + 0.0, q.y as f64 + 0.0]).collect();
        let (x, y) = (x as f64, y as f64);
        let mut want = vec![[x, y], [-x, y], [x, -y], [-x, -y]];
        want.iter_mut().for_each(|w| *w = [w[0] + 0.0, w[1] + 0.0]);
        got.sort_by(|a, b| a.partial_cmp(b).unwrap());
        want.sort_by(|a, b| a.partial_cmp(b).unwrap());
        ensure!(got == want, "corners {got:?}");
        // (corners of a thin box tie within rounding)
        if x > 0.01 * y && y > 0.01 * x {
            ensure!(lib("strict_check", || p.strict_check())?, "strict check rejects it");
        }
        Ok("corners")
    });
}
