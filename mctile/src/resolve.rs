//! C19: point against tilemap, and pushing shapes out of tiles.
use crate::map::{v, Pos};
use auburn::col2d::*;
use mckit::{ensure, lib, PerThread, Run};

type P = (f64, f64);

fn quant(x: f64) -> i32 {
    (x + 0.5).floor() as i32
}
/// Distance of the nearest border between two tiles.
fn border(x: f64) -> f64 {
    let f = x + 0.5;
    (f - f.round()).abs()
}

#[derive(Clone, Copy, Debug)]
enum Shape {
    Ball(f64),
    Box(f64, f64),
}

fn overlap(s: Shape, p: P, t: Pos) -> f64 {
    let d = ((p.0 - t.0 as f64).abs() - 0.5, (p.1 - t.1 as f64).abs() - 0.5);
    match s {
        Shape::Box(hx, hy) => (hx - d.0).min(hy - d.1),
        Shape::Ball(r) => {
            let out = d.0.max(0.0).hypot(d.1.max(0.0));
            if out > 0.0 { r - out } else { r - d.0.max(d.1) }
        }
    }
}

enum Push {
    Out,
    /// vector, growth of the error so far, error of the iterative search relative to the length
    By(P, f64, f64),
    Unclear,
}

/// Minimal translation of the shape at `p`, known up to `r`, out of the tile at `t`.
fn push(s: Shape, p: P, t: Pos, r: f64) -> Push {
    let d = (p.0 - t.0 as f64, p.1 - t.1 as f64);
    match s {
        Shape::Box(hx, hy) => {
            let (ox, oy) = (hx + 0.5 - d.0.abs(), hy + 0.5 - d.1.abs());
            if ox.min(oy) < -r {
                return Push::Out;
            }
            if ox.min(oy) < r || (ox - oy).abs() < 2.0 * r {
                return Push::Unclear;
            }
            let (o, c) = if ox < oy { (ox, d.0) } else { (oy, d.1) };
            if c.abs() < r {
                return Push::Unclear;
            }
            let m = o.copysign(c);
            Push::By(if ox < oy { (m, 0.0) } else { (0.0, m) }, 1.0, 0.0)
        }
        Shape::Ball(rad) => {
            let q = (d.0.clamp(-0.5, 0.5), d.1.clamp(-0.5, 0.5));
            let e = (d.0 - q.0, d.1 - q.1);
            let dist = e.0.hypot(e.1);
            if dist > rad + r {
                return Push::Out;
            }
            if dist > rad - r {
                return Push::Unclear;
            }
            let (sx, sy) = (0.5 - d.0.abs(), 0.5 - d.1.abs());
            if dist > r {
                // the nearest point of the tile; the direction is as uncertain as the position
                Push::By(((rad / dist - 1.0) * e.0, (rad / dist - 1.0) * e.1), rad / (dist - r).max(1e-9), (0.08 * rad / dist).sqrt().min(1.0) + 0.02)
            } else if sx.min(sy) > r {
                // centre within the tile
                if (sx - sy).abs() < 2.0 * r || (if sx < sy { d.0 } else { d.1 }).abs() < r {
                    return Push::Unclear;
                }
                let m = |s: f64, c: f64| (s + rad).copysign(c);
                Push::By(if sx < sy { (m(sx, d.0), 0.0) } else { (0.0, m(sy, d.1)) }, 1.0, 0.2)
            } else {
                Push::Unclear
            }
        }
    }
}

/// Where the shape must end, up to what error, and how often it is pushed. None where rounding decides.
fn reference(solid: &dyn Fn(Pos) -> bool, s: Shape, p0: P, dir: P, far: f64) -> Option<(P, f64, u32, Pos)> {
    let (hx, hy) = match s {
        Shape::Ball(r) => (r, r),
        Shape::Box(x, y) => (x, y),
    };
    let eps = 1e-6 * (1.0 + far);
    for e in [p0.0 - hx, p0.0 + hx, p0.1 - hy, p0.1 + hy] {
        if border(e) < 4.0 * eps {
            return None;
        }
    }
    let xs: Vec<i32> = (quant(p0.0 - hx)..=quant(p0.0 + hx)).collect();
    let ys: Vec<i32> = (quant(p0.1 - hy)..=quant(p0.1 + hy)).collect();
    let (mut p, mut r, mut n, mut last) = (p0, 2.0 * eps, 0, (0, 0));
    for j in 0..ys.len() {
        let y = if dir.1 < 0.0 { ys[ys.len() - 1 - j] } else { ys[j] };
        for i in 0..xs.len() {
            let x = if dir.0 < 0.0 { xs[xs.len() - 1 - i] } else { xs[i] };
            if !solid((x, y)) {
                continue;
            }
            match push(s, p, (x, y), r + 2e-3) {
                Push::Out => {}
                Push::Unclear => return None,
                Push::By(m, amp, rel) => {
                    p = (p.0 + m.0, p.1 + m.1);
                    // a search within the tolerance of C04 may be off sideways by more than lengthwise
                    let e = rel * m.0.hypot(m.1) + if matches!(s, Shape::Ball(_)) { 2e-4 } else { 2e-5 };
                    r = r * amp + e + eps;
                    n += 1;
                    last = (x, y);
                    if r > 0.3 {
                        return None;
                    }
                }
            }
        }
    }
    Some((p, r, n, last))
}

/// The last solid tile within reach, and how deep a shape can be in it at most. None where rounding decides what is within reach.
fn last_tile(solid: &dyn Fn(Pos) -> bool, s: Shape, p: P, dir: (f32, f32), far: f64) -> Option<(Pos, f64)> {
    let (hx, hy) = match s {
        Shape::Ball(r) => (r, r),
        Shape::Box(x, y) => (x, y),
    };
    if [p.0 - hx, p.0 + hx, p.1 - hy, p.1 + hy].iter().any(|e| border(*e) < 4e-6 * (1.0 + far)) {
        return None;
    }
    let (x0, x1, y0, y1) = (quant(p.0 - hx), quant(p.0 + hx), quant(p.1 - hy), quant(p.1 + hy));
    for j in 0..=y1 - y0 {
        let y = if dir.1 < 0.0 { y0 + j } else { y1 - j };
        for i in 0..=x1 - x0 {
            let x = if dir.0 < 0.0 { x0 + i } else { x1 - i };
            if solid((x, y)) {
                return Some(((x, y), hx.max(hy) + 0.5));
            }
        }
    }
    None
}

fn judge(m: &Tilemap, solid: &dyn Fn(Pos) -> bool, s: Shape, p0: (f32, f32), dir: (f32, f32)) -> mckit::Verdict {
    let (p, d) = (Vec2::new(p0.0, p0.1), Vec2::new(dir.0, dir.1));
    let got = match s {
        Shape::Ball(r) => lib("simple_resolve_ball", || m.simple_resolve_ball(&Ball::with_radius(r as f32), p, &d))?,
        Shape::Box(x, y) => lib("simple_resolve_box", || m.simple_resolve_box(&Box2d::with_halfdims(x as f32, y as f32), p, &d))?,
    };
    ensure!(got.is_finite(), "resolved to {got:?}");
    let start = (p0.0 as f64, p0.1 as f64);
    let s = match s {
        Shape::Ball(r) => Shape::Ball(r as f32 as f64),
        Shape::Box(x, y) => Shape::Box(x as f32 as f64, y as f32 as f64),
    };
    let far = start.0.abs().max(start.1.abs()) * 0.12;
    // whatever came before: the tile that is looked at last has been left
    if let Some((t, size)) = last_tile(solid, s, start, dir, far) {
        let left = overlap(s, (got.x as f64, got.y as f64), t);
        let slack = 0.02 * size + 1e-3 + 1e-6 * far;
        ensure!(left <= slack, "resolved to {got:?}, which is still {left} deep in tile {t:?}, the last of them");
    }
    let Some((want, r, n, last)) = reference(solid, s, start, (dir.0 as f64, dir.1 as f64), far) else {
        return Ok("decided by rounding");
    };
    if n == 0 {
        ensure!(got == p, "moved by {:?}, although nothing is overlapped", got - p);
        return Ok("free");
    }
    let e = (got.x as f64 - want.0).hypot(got.y as f64 - want.1);
    ensure!(e <= r, "resolved to {:?} instead of {want:?}", (got.x, got.y));
    if n == 1 {
        // the one push is as short as possible, and enough
        let depth = (want.0 - start.0).hypot(want.1 - start.1);
        let len = (got.x as f64 - start.0).hypot(got.y as f64 - start.1);
        let slack = 0.02 * depth + 3e-4 + 1e-6 * far;
        ensure!(len <= depth + slack, "moved by {len}, {depth} is enough");
        let left = overlap(s, (got.x as f64, got.y as f64), last);
        ensure!(left <= slack, "resolved to {got:?}, which is still {left} deep in tile {last:?}");
    }
    Ok(match n {
        1 => "one push",
        2 => "two pushes",
        _ => "more pushes",
    })
}

pub fn c19(run: &mut Run) {
    run.assume("states where two pushes are equally short, or where a tile is only just touched, within the tolerance of C04, are executed but not compared");
    // every layout of 3 x 3 tiles
    let bases: [Pos; 5] = [(0, 0), (15, -17), (-120, 64), (20_003, -9_000), (-2, 70_001)];
    // maps are not assumed to be shareable between threads
    let maps = PerThread::new(move || -> Vec<Tilemap> {
        (0..512 * bases.len())
        .map(|k| {
            let (l, b) = (k % 512, bases[k / 512]);
            let mut m = Tilemap::default();
            for i in (0..9).filter(|i| l >> i & 1 == 1) {
                let _ = lib("set_tile", || m.set_tile(v((b.0 + i % 3 - 1, b.1 + i / 3 - 1)), (1 + 28 * i) as u8));
            }
            m
        })
        .collect()
    });
    let shapes = [
        Shape::Ball(0.4),
        Shape::Ball(0.25),
        Shape::Ball(0.9),
        Shape::Ball(0.02),
        Shape::Box(0.4, 0.4),
        Shape::Box(0.3, 0.45),
        Shape::Box(0.45, 0.2),
        Shape::Box(0.7, 1.1),
        Shape::Box(0.01, 0.3),
    ];
    let dirs = [(1.0f32, 1.0f32), (-1.0, 1.0), (1.0, -1.0), (-1.0, -1.0), (0.0, -0.5), (-30.0, 0.0)];
    let n = run.tier.pick(25usize, 61);
    // positions off any symmetry of the tiles
    let at = |i: usize, k: usize| -1.93 + (i as f32 + 0.37 * k as f32 / 2.0) * (3.9 / n as f32);
    let dims = |l: usize, b: usize, d: usize| [l, b, shapes.len(), n, n, d];
    let state = |ix: &[usize]| {
        let b = bases[ix[1]];
        ((b.0 as f32 + at(ix[3], 0), b.1 as f32 + at(ix[4], 1)), dirs[ix[5]], shapes[ix[2]])
    };
    let desc = |l: usize, ix: &[usize]| {
        let (p, d, s) = state(ix);
        format!("layout {l:#011b} around {:?}: {s:?} at {p:?} towards {d:?}", bases[ix[1]])
    };
    let exec = |l: usize, ix: &[usize]| {
        let (p, d, s) = state(ix);
        let b = bases[ix[1]];
        let solid = |t: Pos| {
            let (x, y) = (t.0 - b.0 + 1, t.1 - b.1 + 1);
            (0..3).contains(&x) && (0..3).contains(&y) && l >> (y * 3 + x) & 1 == 1
        };
        judge(&maps.get()[ix[1] * 512 + l], &solid, s, p, d)
    };
    let q = run.quick();
    let nd = if q { 4 } else { 6 };
    run.lattice("layouts", &dims(512, 1, nd), &|ix| desc(ix[0], ix), &|ix| exec(ix[0], ix));
    // the same, across chunks and away from the origin: single tiles, walls, floors, corners
    let some: Vec<usize> = if q {
        vec![0, 1 << 4, 1, 1 << 8, 0b111, 0b111 << 6, 0b001001001, 0b100100100, 0b111001001, 0b100100111, 0b101010101, 511]
    } else {
        (0..512).step_by(3).collect()
    };
    run.lattice("elsewhere", &dims(some.len(), bases.len(), dirs.len()), &|ix| desc(some[ix[0]], ix), &|ix| exec(some[ix[0]], ix));

    // ways to move: all around, and ever so slightly off an axis, slow and fast
    let mut headings: Vec<(f32, f32)> = Vec::new();
    for i in 0..24 {
        let th = std::f32::consts::TAU * (i as f32 + 0.31) / 24.0;
        headings.push((th.cos(), th.sin()));
    }
    for slope in [0.5f32, 0.1, 0.03, 0.008, 1e-3, 1e-5] {
        for (sx, sy) in [(1.0f32, 1.0f32), (1.0, -1.0), (-1.0, 1.0), (-1.0, -1.0)] {
            headings.push((sx, sy * slope));
            headings.push((sx * slope, sy));
        }
    }
    for size in [1e-6f32, 1e-3, 40.0, 1e4] {
        for (sx, sy) in [(1.0f32, 1.0f32), (1.0, -1.0), (-1.0, 1.0), (-1.0, -1.0)] {
            headings.push((sx * size, 0.7 * sy * size));
        }
    }
    let coarse = run.tier.pick(7usize, 15);
    let kinds = [Shape::Ball(0.4), Shape::Box(0.3, 0.45), Shape::Box(0.7, 1.1), Shape::Ball(0.9)];
    let heading = |ix: &[usize]| -> (usize, Shape, (f32, f32), (f32, f32)) {
        let step = 3.9 / coarse as f32;
        let p = (-1.93 + (ix[2] as f32 + 0.41) * step, -1.93 + (ix[3] as f32 + 0.23) * step);
        (some[ix[0]], kinds[ix[1]], p, headings[ix[4]])
    };
    run.lattice(
        "headings",
        &[some.len(), kinds.len(), coarse, coarse, headings.len()],
        &|ix| {
            let (l, s, p, d) = heading(ix);
            format!("layout {l:#011b}: {s:?} at {p:?} towards {d:?}")
        },
        &|ix| {
            let (l, s, p, d) = heading(ix);
            let solid = |t: Pos| {
                let (x, y) = (t.0 + 1, t.1 + 1);
                (0..3).contains(&x) && (0..3).contains(&y) && l >> (y * 3 + x) & 1 == 1
            };
            judge(&maps.get()[l], &solid, s, p, d)
        },
    );

    // shapes of many tiles, sunk a little or a lot into a single tile, a floor, a wall or a corner, from all around
    let larges = [
        Shape::Ball(1.7),
        Shape::Ball(2.6),
        Shape::Ball(5.3),
        Shape::Ball(12.1),
        Shape::Ball(40.3),
        Shape::Box(2.4, 3.7),
        Shape::Box(6.1, 0.8),
        Shape::Box(0.3, 9.9),
        Shape::Box(17.3, 21.1),
        Shape::Box(33.4, 0.6),
        Shape::Box(0.45, 55.2),
        Shape::Box(71.7, 130.3),
        Shape::Ball(97.6),
    ];
    type Ground = (&'static str, fn(Pos) -> bool);
    let grounds: [Ground; 5] = [
        ("a tile", |t| t == (0, 0)),
        ("a floor", |t| t.1 == 0 && t.0.abs() <= 60),
        ("a wall", |t| t.0 == 0 && t.1.abs() <= 60),
        ("a corner", |t| (t.1 == 0 && (0..60).contains(&t.0)) || (t.0 == 0 && (0..60).contains(&t.1))),
        ("two tiles", |t| t == (0, 0) || t == (2, 1)),
    ];
    let ground_maps = PerThread::new(move || -> Vec<Tilemap> {
        grounds
        .iter()
        .map(|(_, f)| {
            let mut m = Tilemap::default();
            for x in -61..=61 {
                for y in -61..=61 {
                    if f((x, y)) {
                        let _ = lib("set_tile", || m.set_tile(v((x, y)), 3));
                    }
                }
            }
            m
        })
        .collect()
    });
    let sunk = [0.003f64, 0.01, 0.03, 0.08, 0.2, 0.45, 0.9, 1.4];
    let around = run.tier.pick(48usize, 200);
    let large = |ix: &[usize]| -> (Shape, (f32, f32)) {
        let s = larges[ix[1]];
        let th = std::f64::consts::TAU * ix[2] as f64 / around as f64 + 0.013;
        let u = (th.cos(), th.sin());
        // out from the middle of the tile until only that much of it is overlapped
        let (mut lo, mut hi) = (0.0, 100.0);
        for _ in 0..50 {
            let m = 0.5 * (lo + hi);
            if overlap(s, (m * u.0, m * u.1), (0, 0)) > sunk[ix[3]] {
                lo = m
            } else {
                hi = m
            }
        }
        (s, ((lo * u.0) as f32, (lo * u.1) as f32))
    };
    run.lattice(
        "large",
        &[grounds.len(), larges.len(), around, sunk.len(), dirs.len()],
        &|ix| format!("{:?} on {} towards {:?}", large(ix), grounds[ix[0]].0, dirs[ix[4]]),
        &|ix| {
            let (s, p) = large(ix);
            judge(&ground_maps.get()[ix[0]], &grounds[ix[0]].1, s, p, dirs[ix[4]])
        },
    );

    // a long floor or wall, met less deep than it is overlapped along: only the one push across it
    let depths = [0.01f32, 0.05, 0.1, 0.2, 0.3];
    let m = 24;
    let halves = [0.35f32, 0.45, 0.8, 1.2];
    let walls = PerThread::new(|| -> Vec<Tilemap> {
        (0..2)
        .map(|k| {
            let mut t = Tilemap::default();
            for i in -20..=20 {
                let _ = lib("set_tile", || t.set_tile(v(if k == 0 { (i, 0) } else { (0, i) }), 1));
            }
            t
        })
        .collect()
    });
    let place = |ix: &[usize]| {
        let h = halves[ix[4]];
        let (along, side) = (-1.5 + 3.0 * ix[2] as f32 / m as f32 + 0.017, if ix[1] == 0 { 1.0 } else { -1.0 });
        let across = side * (0.5 + h - depths[ix[3]]);
        (if ix[0] == 0 { (along, across) } else { (across, along) }, side, h)
    };
    run.lattice(
        "wall",
        &[2, 2, m, depths.len(), halves.len(), dirs.len()],
        &|ix| {
            let (p, _, h) = place(ix);
            format!("box of {h} at {p:?} in a {} {} deep, towards {:?}", ["floor", "wall"][ix[0]], depths[ix[3]], dirs[ix[5]])
        },
        &|ix| {
            let (p, side, h) = place(ix);
            let dir = dirs[ix[5]];
            // overlap of the first tile along the wall must exceed the depth, or else it is pushed along it first
            let (lo, hi) = { let a = if ix[0] == 0 { p.0 } else { p.1 }; (a - h, a + h) };
            let first = (quant(lo as f64) as f64 + 0.5 - lo as f64).min(hi as f64 - quant(hi as f64) as f64 + 0.5);
            if first < depths[ix[3]] as f64 + 0.01 {
                return Ok("edge");
            }
            let got = lib("simple_resolve_box", || walls.get()[ix[0]].simple_resolve_box(&Box2d::with_halfdims(h, h), Vec2::new(p.0, p.1), &Vec2::new(dir.0, dir.1)))?;
            let want = if ix[0] == 0 { (p.0, side * (0.5 + h)) } else { (side * (0.5 + h), p.1) };
            ensure!((got.x - want.0).abs() < 1e-4 && (got.y - want.1).abs() < 1e-4, "resolved to {got:?} instead of {want:?}");
            Ok("resting")
        },
    );

    edits(run);

    // every kind of tile is solid but the empty one
    run.lattice(
        "kinds",
        &[256, 5, 6],
        &|ix| format!("tile of value {} at {:?}, asked in way {}", ix[0], KIND_PLACES[ix[1]], ix[2]),
        &|ix| {
            let (t, p) = (ix[0] as u8, KIND_PLACES[ix[1]]);
            let mut m = Tilemap::default();
            lib("set_tile", || m.set_tile(v(p), t))?;
            let at = Vec2::new(p.0 as f32, p.1 as f32);
            let (near, out) = (at + Vec2::new(0.6, 0.125), at + Vec2::new(0.875, 0.125));
            let said = match ix[2] {
                0 => lib("collides_rel", || m.collides_rel(&Point, &(at + Vec2::new(0.25, -0.125))))?,
                1 => lib("collides_rel", || m.collides_rel(&Point, &Translate2d::from(at)))?,
                2 => lib("collides_rel", || m.collides_rel(&Point, &AxisTransform2d::new(at, 2.0)))?,
                3 => lib("collides", || (&m, &Vec2::X).collides((&Point, &(at + Vec2::X))))?,
                way => {
                    let got = if way == 4 {
                        lib("simple_resolve_box", || m.simple_resolve_box(&Box2d::with_halfdims(0.375, 0.375), near, &Vec2::X))?
                    } else {
                        lib("simple_resolve_ball", || m.simple_resolve_ball(&Ball::with_radius(0.375), near, &Vec2::X))?
                    };
                    let stays = (got - near).length() < 1e-4;
                    ensure!(stays || (got - out).length() < 0.01, "resolved to {got:?} from {near:?}");
                    !stays
                }
            };
            ensure!(said == (t != 0), "solid is {said}");
            Ok(if t == 0 { "outside" } else { "inside" })
        },
    );

    // point against tilemap
    let k = run.tier.pick(40usize, 100);
    let angles = [0.0f32, 0.5, 1.5707964, 2.5, -2.0];
    let scales = [1.0f32, 0.5, 3.0];
    let offs = [(0.0f32, 0.0f32), (1.3, -0.7), (-40.0, 25.0)];
    let solid = |t: Pos| (-1..=1).contains(&t.0) && (-1..=1).contains(&t.1) && 0b010_001_110 >> ((t.1 + 1) * 3 + t.0 + 1) & 1 == 1;
    let local = |ix: &[usize]| (-2.2 + 4.4 * ix[0] as f64 / k as f64 + 0.003, -2.2 + 4.4 * ix[1] as f64 / k as f64 + 0.004);
    run.lattice(
        "point",
        &[k, k, angles.len(), scales.len(), offs.len()],
        &|ix| format!("point at {:?} of a tilemap at {:?}, turned by {}, scaled by {}", local(ix), offs[ix[4]], angles[ix[2]], scales[ix[3]]),
        &|ix| {
            let maps = maps.get();
            let map = &maps[0b010_001_110];
            let l = local(ix);
            if border(l.0) < 2e-4 || border(l.1) < 2e-4 {
                return Ok("border");
            }
            let want = solid((quant(l.0), quant(l.1)));
            let (a, s, o) = (angles[ix[2]], scales[ix[3]], offs[ix[4]]);
            let (sn, cs) = (a as f64).sin_cos();
            let w = (o.0 as f64 + s as f64 * (cs * l.0 - sn * l.1), o.1 as f64 + s as f64 * (sn * l.0 + cs * l.1));
            let w = Vec2::new(w.0 as f32, w.1 as f32);
            let lv = Vec2::new(l.0 as f32, l.1 as f32);
            let tm = |p: Vec2, a: f32, s: f32| Transform2d { pos: p, rot: Rotor2d::from_angle(a), scale: Vec2::splat(s) };
            let mut said = vec![
                ("relative Vec2", lib("collides_rel", || map.collides_rel(&Point, &lv))?),
                ("relative Translate2d", lib("collides_rel", || map.collides_rel(&Point, &Translate2d::from(lv)))?),
                ("relative Transform2d", lib("collides_rel", || map.collides_rel(&Point, &tm(lv, a, s)))?),
                ("relative AxisTransform2d", lib("collides_rel", || map.collides_rel(&Point, &AxisTransform2d::new(lv, s)))?),
                ("world Transform2d", lib("collides", || (map, &tm(Vec2::new(o.0, o.1), a, s)).collides((&Point, &tm(w, 0.3, 1.0))))?),
            ];
            if a == 0.0 {
                let t = AxisTransform2d::new(Vec2::new(o.0, o.1), s);
                let pt = AxisTransform2d::new(w, 2.0);
                said.push(("world AxisTransform2d", lib("collides", || (map, &t).collides((&Point, &pt)))?));
                if s == 1.0 {
                    said.push(("world Vec2", lib("collides", || (map, &Vec2::new(o.0, o.1)).collides((&Point, &w)))?));
                }
            }
            for (form, got) in said {
                ensure!(got == want, "{form}: collides is {got}, the tile there is {}", if want { "set" } else { "empty" });
            }
            Ok(if want { "inside" } else { "outside" })
        },
    );
}

const KIND_PLACES: [Pos; 5] = [(0, 0), (-1, -1), (15, 16), (-16, 31), (300, -77)];

/// Tiles set and removed in two maps, and questions in between: every history, without merging, each on a thread of its
/// own. A question is answered from the tiles as they are now.
fn edits(run: &mut Run) {
    let tiles: [Pos; 3] = [(15, 0), (16, 0), (16, 1)];
    let ask = |m: &Tilemap, q: usize| -> Result<String, String> {
        let (ball, block) = (Ball::with_radius(0.4), Box2d::with_halfdims(0.45, 0.3));
        lib("question", || match q {
            0 => format!("{:?}", m.collides_rel(&Point, &Vec2::new(15.2, -0.3))),
            1 => format!("{:?}", m.simple_resolve_ball(&ball, Vec2::new(15.1, 0.77), &Vec2::new(1.0, 0.0))),
            2 => format!("{:?}", m.simple_resolve_ball(&ball, Vec2::new(15.6, 0.62), &Vec2::new(-1.0, -1.0))),
            3 => format!("{:?}", m.simple_resolve_box(&block, Vec2::new(15.42, 0.64), &Vec2::new(-1.0, 1.0))),
            _ => format!("{:?}", m.simple_resolve_box(&block, Vec2::new(15.42, 0.64), &Vec2::new(1.0, -1.0))),
        })
    };
    let name = |q: usize| ["collides", "simple_resolve_ball", "another simple_resolve_ball", "simple_resolve_box", "simple_resolve_box, other way"][q];
    let alone = |f: &(dyn Fn() -> Result<String, String> + Sync)| std::thread::scope(|s| s.spawn(f).join().expect("panicked outside of the code under test"));
    // answers about maps that never were otherwise
    let fresh: Vec<Vec<Result<String, String>>> = (0..8)
        .map(|l: usize| {
            (0..5)
                .map(|q| {
                    alone(&|| {
                        let mut m = Tilemap::default();
                        for i in (0..3).filter(|i| l >> i & 1 == 1) {
                            lib("set_tile", || m.set_tile(v(tiles[i]), 1))?;
                        }
                        ask(&m, q)
                    })
                })
                .collect()
        })
        .collect();
    // 0-2 set and 3-5 remove a tile, 6-10 ask: in the first map; then the same in the second one, with one question
    let ops = 11 + 6 + 2;
    let depth = run.tier.pick(4, 5);
    run.histories(
        "edits",
        ops,
        depth,
        &|h| {
            h.iter()
                .map(|&o| {
                    let (m, o) = (o / 11, o % 11);
                    match o {
                        0..=2 => format!("set {:?} in map {m}", tiles[o]),
                        3..=5 => format!("remove {:?} in map {m}", tiles[o - 3]),
                        _ => format!("{} in map {m}", name(o - 6)),
                    }
                })
                .collect::<Vec<_>>()
                .join("; ")
        },
        &|h| {
            if h.len() == depth && h.last().is_some_and(|&o| o % 11 < 6) {
                return Ok(None);
            }
            mckit::cmp();
            alone(&|| {
                let (mut ms, mut l) = ([Tilemap::default(), Tilemap::default()], [0usize; 2]);
                for &o in h {
                    let (m, o) = (o / 11, o % 11);
                    match o {
                        0..=2 => {
                            lib("set_tile", || ms[m].set_tile(v(tiles[o]), 1))?;
                            l[m] |= 1 << o;
                        }
                        3..=5 => {
                            lib("remove_tile", || ms[m].remove_tile(v(tiles[o - 3])))?;
                            l[m] &= !(1 << (o - 3));
                        }
                        _ => {
                            let got = ask(&ms[m], o - 6)?;
                            let want = fresh[l[m]][o - 6].as_ref().map_err(|e| e.clone())?;
                            ensure!(&got == want, "{} answers {got}, but {want} of a map with the same tiles", name(o - 6));
                        }
                    }
                }
                Ok(String::new())
            })?;
            Ok((h.len() < depth).then(|| h.iter().map(|&o| o as u8).collect()))
        },
    );
}
