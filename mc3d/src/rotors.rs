//! C13: plane rotations, quaternions and the transforms of the game engine.
use auburn::col2d::*;
use bevy::prelude::{Quat, Transform, Vec3};
use mckit::{ensure, lib, Run};
use std::f64::consts::PI;

const EPS: f64 = 4.8e-7;

/// The rotor as it acts: the images of both axes.
fn matrix(r: Rotor2d) -> Result<[f64; 4], String> {
    let (x, y) = (lib("rotor * x", || r * Vec2::X)?, lib("rotor * y", || r * Vec2::Y)?);
    Ok([x.x as f64, x.y as f64, y.x as f64, y.y as f64])
}
/// Difference of two angles, modulo a full turn.
fn apart(a: f64, b: f64) -> f64 {
    let d = (a - b).rem_euclid(2.0 * PI);
    d.min(2.0 * PI - d)
}
/// The rotor rotates by `angle`, up to `tol`.
fn rotates(what: &str, r: Rotor2d, angle: f64, tol: f64) -> Result<(), String> {
    let (s, c) = angle.sin_cos();
    let (got, want) = (matrix(r)?, [c, s, -s, c]);
    let e = (0..4).map(|i| (got[i] - want[i]).abs()).fold(0.0, f64::max);
    ensure!(e <= tol, "{what} maps the axes to {got:?} instead of {want:?}");
    let a = lib("angle", || r.angle())? as f64;
    ensure!(apart(a, angle) <= tol + 4.0 * EPS && a.abs() <= PI + 1e-6, "{what} has angle {a} instead of {angle}");
    Ok(())
}

fn turn(q: [f64; 4]) -> Quat {
    Quat::from_xyzw(q[0] as f32, q[1] as f32, q[2] as f32, q[3] as f32)
}

pub fn c13(run: &mut Run) {
    run.assume("quaternions are unit quaternions; where neither w nor z is left (a half turn around an axis in the plane), only that the result is a rotation is judged");
    run.assume("engine transforms: uniform scale wherever transforms are combined");
    // angles
    let fine = run.tier.pick(720, 7200);
    let wide = [100.0f32, -1000.0, 12345.67, 1e-10, -1e-20, 0.0, -0.0];
    let angle = |i: usize| if i <= 2 * fine { (i as f64 / fine as f64 * 4.0 * PI - 4.0 * PI) as f32 } else { wide[i - 2 * fine - 1] };
    let vs = [[1.0f32, 0.0], [0.0, -2.5], [3.0, 4.0], [-1e-6, 1e6], [0.0, 0.0]];
    run.lattice("angle", &[2 * fine + 1 + wide.len(), vs.len()], &|ix| format!("angle {} vector {:?}", angle(ix[0]), vs[ix[1]]), &|ix| {
        let a = angle(ix[0]);
        let r = lib("from_angle", || Rotor2d::from_angle(a))?;
        rotates("from_angle", r, a as f64, 4.0 * EPS)?;
        let v = Vec2::from(vs[ix[1]]);
        let (s, c) = (a as f64).sin_cos();
        let (x, y) = (v.x as f64, v.y as f64);
        let l = x.hypot(y);
        for (what, g, w) in [
            ("rotated", lib("rotor * vector", || r * v)?, [c * x - s * y, s * x + c * y]),
            ("rotated back", lib("inverse", || r.inverse() * v)?, [c * x + s * y, c * y - s * x]),
        ] {
            ensure!((g.x as f64 - w[0]).hypot(g.y as f64 - w[1]) <= 4.0 * EPS * l, "{what}: {g:?} instead of {w:?}");
            ensure!(((g.x as f64).hypot(g.y as f64) - l).abs() <= 4.0 * EPS * l, "{what}: length {} instead of {l}", g.length());
        }
        rotates("inverse", lib("inverse", || r.inverse())?, -(a as f64), 4.0 * EPS)?;
        Ok("angle")
    });
    // every angle there is
    run.floats("angles", 0.0, 20_000.0, run.tier.pick(64, 1), &|a| {
        let r = lib("from_angle", || Rotor2d::from_angle(a))?;
        let (s, c) = (a as f64).sin_cos();
        let x = lib("rotor * x", || r * Vec2::X)?;
        let (x, y) = (x.x as f64, x.y as f64);
        ensure!((x - c).abs() <= 4.0 * EPS && (y - s).abs() <= 4.0 * EPS, "maps the x axis to {:?} instead of {:?}", (x, y), (c, s));
        let back = lib("angle", || r.angle())? as f64;
        ensure!(apart(back, a as f64) <= 8.0 * EPS && back.abs() <= PI + 1e-6, "its angle is {back}");
        Ok(())
    });
    run.lattice("identity", &[3], &|ix| format!("identity {}", ix[0]), &|ix| {
        let r = [Rotor2d::default(), Rotor2d::IDENTITY, Transform2d::default().rot][ix[0]];
        rotates("identity", r, 0.0, 0.0)?;
        Ok("identity")
    });
    let k = run.tier.pick(120, 360);
    let coarse = |i: usize| (i as f64 * (2.0 * PI / k as f64) + 0.01 * (i % 3) as f64 - PI) as f32;
    run.lattice("product", &[k, k, 7], &|ix| format!("{} * {} * {}", coarse(ix[0]), coarse(ix[1]), ix[2] as f32 - 3.1), &|ix| {
        let (a, b, c) = (coarse(ix[0]), coarse(ix[1]), ix[2] as f32 - 3.1);
        let [ra, rb, rc] = [a, b, c].map(Rotor2d::from_angle);
        let (a, b, c) = (a as f64, b as f64, c as f64);
        rotates("product", lib("*", || ra * rb)?, a + b, 8.0 * EPS)?;
        rotates("product of three", lib("*", || (ra * rb) * rc)?, a + b + c, 12.0 * EPS)?;
        rotates("product of three", lib("*", || ra * (rb * rc))?, a + b + c, 12.0 * EPS)?;
        rotates("quotient", lib("*", || ra.inverse() * rb)?, b - a, 8.0 * EPS)?;
        rotates("product with the inverse", lib("*", || ra * ra.inverse())?, 0.0, 8.0 * EPS)?;
        Ok("product")
    });
    // words: multiply on either side, invert
    let gens = [0.7f32, -2.3, 1.5707964, 3.1, 1e-3];
    let n = gens.len();
    let name = |o: usize| if o == 0 { "inverse".into() } else if o <= n { format!("* {}", gens[o - 1]) } else { format!("{} *", gens[o - 1 - n]) };
    run.histories("words", 1 + 2 * n, run.tier.pick(5, 6), &|h| h.iter().map(|&o| name(o)).collect::<Vec<_>>().join(", "), &|h| {
        let (mut r, mut a) = (Rotor2d::IDENTITY, 0.0f64);
        for &o in h {
            if o == 0 {
                r = lib("inverse", || r.inverse())?;
                a = -a;
            } else if o <= n {
                r = lib("*", || r * Rotor2d::from_angle(gens[o - 1]))?;
                a += gens[o - 1] as f64;
            } else {
                r = lib("*", || Rotor2d::from_angle(gens[o - 1 - n]) * r)?;
                a += gens[o - 1 - n] as f64;
            }
        }
        rotates("word", r, a, 4.0 * EPS * (h.len() + 1) as f64)?;
        let m = matrix(r)?;
        Ok(Some(m.iter().flat_map(|x| (*x as f32).to_bits().to_le_bytes()).collect()))
    });
    // quaternions: any turn, as its turn around z followed by a tilt
    let g = run.tier.pick(13usize, 21);
    let comp = |i: usize| (i as f64 - (g / 2) as f64) / (g / 2) as f64;
    run.lattice("quaternion", &[g, g, g, g], &|ix| format!("quaternion along {:?}", [0, 1, 2, 3].map(|i| comp(ix[i]))), &|ix| {
        let c = [0, 1, 2, 3].map(|i| comp(ix[i]));
        let l = c.iter().map(|x| x * x).sum::<f64>().sqrt();
        if l == 0.0 {
            return Ok("none");
        }
        let q = c.map(|x| x / l);
        let r = lib("from_quaternion", || Rotor2d::from_quaternion(turn(q)))?;
        let m = matrix(r)?;
        ensure!(m.iter().all(|x| x.is_finite()), "maps the axes to {m:?}");
        ensure!((m[0].hypot(m[1]) - 1.0).abs() < 1e-6, "is no rotation: maps the axes to {m:?}");
        ensure!((m[0] - m[3]).abs() < 1e-6 && (m[1] + m[2]).abs() < 1e-6, "is no rotation: maps the axes to {m:?}");
        let twist = q[2].hypot(q[3]);
        if twist < 1e-3 {
            return Ok("half turn around an axis in the plane");
        }
        rotates("from_quaternion", r, 2.0 * q[2].atan2(q[3]), 8.0 * EPS / twist + 4.0 * EPS)?;
        Ok(if q[0] == 0.0 && q[1] == 0.0 { "around z" } else { "tilted" })
    });
    // from no tilt to almost half a turn of it, towards all sides
    let amounts = [0.0, 1e-6, 1e-4, 1e-3, 1e-2, 0.1, 0.5, 1.0, 1.5707963267948966, 2.5, 3.0, 3.1, 3.13];
    let (sides, spins) = (run.tier.pick(12usize, 36), run.tier.pick(72usize, 360));
    let tilted = |ix: &[usize]| -> ([f64; 4], f64) {
        use crate::space::*;
        let (b, a) = (ix[1] as f64 * 2.0 * PI / sides as f64, ix[2] as f64 * 2.0 * PI / spins as f64 - PI);
        let tilt = Turn { axis: [b.cos(), b.sin(), 0.0], angle: amounts[ix[0]] }.q();
        let spin = Turn { axis: [0.0, 0.0, 1.0], angle: a + if ix[2] % 2 == 1 { 1e-3 } else { 0.0 } }.q();
        let q = if ix[3] & 1 == 0 { qmul(tilt, spin) } else { qmul(spin, tilt) };
        (if ix[3] & 2 == 0 { q } else { q.map(|x| -x) }, a + if ix[2] % 2 == 1 { 1e-3 } else { 0.0 })
    };
    run.lattice(
        "tilted",
        &[amounts.len(), sides, spins, 4],
        &|ix| format!("tilt of {} towards side {}, turned by {} (quaternion {:?})", amounts[ix[0]], ix[1], tilted(ix).1, tilted(ix).0),
        &|ix| {
            let (q, a) = tilted(ix);
            let tol = 8.0 * EPS / q[2].hypot(q[3]) + 4.0 * EPS;
            rotates("from_quaternion", lib("from_quaternion", || Rotor2d::from_quaternion(turn(q)))?, a, tol)?;
            let e = Transform { translation: Vec3::new(1.0, -2.0, 9.0), rotation: turn(q), scale: Vec3::new(2.0, 0.5, 7.0) };
            let t: Transform2d = lib("from", || e.into())?;
            rotates("rotation of the engine's transform", t.rot, a, tol)?;
            ensure!(t.pos == Vec2::new(1.0, -2.0) && t.scale == Vec2::new(2.0, 0.5), "converted to {:?} {:?}", t.pos, t.scale);
            Ok("tilted")
        },
    );
    run.lattice("around-z", &[2 * fine + 1], &|ix| format!("angle {}", angle(ix[0])), &|ix| {
        let a = angle(ix[0]) as f64;
        let r = lib("from_quaternion", || Rotor2d::from_quaternion(turn([0.0, 0.0, (a / 2.0).sin(), (a / 2.0).cos()])))?;
        rotates("from_quaternion", r, a, 8.0 * EPS)?;
        Ok("around z")
    });
    // engine transforms
    let pos = [[0.0f32, 0.0, 0.0], [3.0, -2.0, 50.0], [-0.25, 400.0, -1.0]];
    let tilts = [[0.0f64, 0.0], [0.4, 0.0], [-0.3, 0.8], [0.0, -1.2], [2.4, 0.1]];
    let scales = [[1.0f32, 1.0, 1.0], [2.0, 2.0, 2.0], [0.5, 3.0, 7.0], [10.0, 0.1, 1.0], [0.3, 0.3, 9.0]];
    let angles = run.tier.pick(72usize, 180);
    let build = |ix: &[usize]| {
        let a = ix[1] as f64 * 2.0 * PI / angles as f64 - 3.0;
        let t = tilts[ix[2]];
        let (x, y) = (crate::space::Turn { axis: [1.0, 0.0, 0.0], angle: t[0] }.q(), crate::space::Turn { axis: [0.0, 1.0, 0.0], angle: t[1] }.q());
        let z = crate::space::Turn { axis: [0.0, 0.0, 1.0], angle: a }.q();
        let q = crate::space::qmul(crate::space::qmul(x, y), z);
        (Transform { translation: Vec3::from(pos[ix[0]]), rotation: turn(q), scale: Vec3::from(scales[ix[3]]) }, 2.0 * q[2].atan2(q[3]))
    };
    let points = [[0.0f32, 0.0], [1.0, 0.0], [0.0, 1.0], [-3.0, 2.0], [40.0, -0.5]];
    run.lattice("engine", &[pos.len(), angles, tilts.len(), scales.len()], &|ix| format!("{:?}", build(ix).0), &|ix| {
        let (e, a) = build(ix);
        let t: Transform2d = lib("from", || e.into())?;
        ensure!(t.pos == Vec2::new(e.translation.x, e.translation.y), "position is {:?}", t.pos);
        ensure!(t.scale == Vec2::new(e.scale.x, e.scale.y), "scale is {:?}", t.scale);
        rotates("rotation", t.rot, a, 3e-6)?;
        // used directly, it behaves as converted; both behave as they must
        let (s, c) = a.sin_cos();
        let (k, p) = ((e.scale.x as f64, e.scale.y as f64), (e.translation.x as f64, e.translation.y as f64));
        ensure!(Transformation2d::scaling_factor(&e) == t.scaling_factor(), "scaling factors {} and {}", Transformation2d::scaling_factor(&e), t.scaling_factor());
        ensure!(Transformation2d::apply_origin(&e) == t.apply_origin(), "origins {:?} and {:?}", Transformation2d::apply_origin(&e), t.apply_origin());
        for q in points {
            let q = Vec2::from(q);
            let (x, y) = (q.x as f64, q.y as f64);
            let (u, v) = (x - p.0, y - p.1);
            let big = k.0.max(k.1) * x.hypot(y) + p.0.hypot(p.1);
            let far = x.hypot(y) + p.0.hypot(p.1);
            let all: [(&str, Vec2, Vec2, [f64; 2], f64); 4] = [
                ("apply", lib("apply", || Transformation2d::apply(&e, q))?, t.apply(q), [c * k.0 * x - s * k.1 * y + p.0, s * k.0 * x + c * k.1 * y + p.1], big),
                ("unapply", lib("unapply", || Transformation2d::unapply(&e, q))?, t.unapply(q), [(c * u + s * v) / k.0, (c * v - s * u) / k.1], far / k.0.min(k.1)),
                ("apply_normal", lib("apply_normal", || Transformation2d::apply_normal(&e, q))?, t.apply_normal(q), [c * x - s * y, s * x + c * y], x.hypot(y)),
                ("unapply_normal", lib("unapply_normal", || Transformation2d::unapply_normal(&e, q))?, t.unapply_normal(q), [c * x + s * y, c * y - s * x], x.hypot(y)),
            ];
            for (what, direct, converted, want, size) in all {
                let off = |g: Vec2| (g.x as f64 - want[0]).hypot(g.y as f64 - want[1]);
                let tol = 4e-6 * size;
                ensure!(off(direct) <= tol, "{what}({q:?}) of the engine's transform is {direct:?} instead of {want:?}");
                ensure!(off(converted) <= tol, "{what}({q:?}) of the converted transform is {converted:?} instead of {want:?}");
            }
        }
        Ok("engine")
    });
    // combined in the plane, it behaves as converted; and so do queries between colliders placed by it
    let flat: Vec<Transform> = (0..run.tier.pick(120usize, 400))
        .map(|i| {
            let z = crate::space::Turn { axis: [0.0, 0.0, 1.0], angle: i as f64 * 0.77 - 3.0 }.q();
            let p = [i as f32 * 0.31 - 2.0, (i * i % 7) as f32 * 0.45 - 1.2, (i % 3) as f32];
            Transform { translation: Vec3::from(p), rotation: turn(z), scale: Vec3::splat([1.0, 1.0, 0.5, 2.0][i % 4]) }
        })
        .collect();
    let m = flat.len();
    run.lattice("combined", &[m, m], &|ix| format!("{:?} and {:?}", flat[ix[0]], flat[ix[1]]), &|ix| {
        let (a, b) = (flat[ix[0]], flat[ix[1]]);
        let [ta, tb] = [a, b].map(Transform2d::from);
        let all = [
            ("inverse", lib("inverse", || a.inverse())?, ta.inverse()),
            ("compose", lib("compose", || Composable::compose(&a, &b))?, ta.compose(&tb)),
            ("delta_transform", lib("delta_transform", || a.delta_transform(&b))?, ta.delta_transform(&tb)),
        ];
        for (what, x, y) in all {
            for q in points {
                let q = Vec2::from(q);
                let (g, h) = (Transformation2d::apply(&x, q), y.apply(q));
                ensure!(g.distance(h) <= 2e-5 * (1.0 + h.length()), "{what} maps {q:?} to {g:?} instead of {h:?}");
            }
        }
        let (boxy, other, ball) = (Box2d::with_halfdims(0.7, 0.4), Box2d::with_halfdims(0.5, 0.9), Ball::with_radius(0.6));
        let (tri, hex) = (Poly2d::new(&[Vec2::new(-0.6, -0.5), Vec2::new(0.8, -0.4), Vec2::new(-0.1, 0.9)]), Poly2d::regular(6, 0.7));
        let near = |g: Vec2, h: Vec2| g.distance(h) <= 1e-3 * (1.0 + h.length());
        macro_rules! same {
            ($x:expr, $y:expr) => {{
                let (d, e) = (lib("sdfv", || ($x, &ta).sdfv(($y, &tb)))?, lib("sdfv", || ($x, &a).sdfv(($y, &b)))?);
                // the nearest features may be ambiguous: then the lengths agree
                if d.1.length() > 1e-3 {
                    ensure!(d.0 == e.0 && (near(d.1, e.1) || (d.1.length() - e.1.length()).abs() <= 2e-2 * d.1.length()), "sdfv {e:?} by engine transforms, {d:?} by converted ones");
                    let c = lib("collides", || ($x, &a).collides(($y, &b)))?;
                    ensure!(c == d.0, "collides {c} by engine transforms, {} by converted ones", d.0);
                    let (p, q) = (lib("penetrates", || ($x, &a).penetrates(($y, &b)))?, lib("penetrates", || ($x, &ta).penetrates(($y, &tb)))?);
                    ensure!(p.is_some() == d.0 && p.is_some() == q.is_some(), "penetrates {p:?} by engine transforms, {q:?} by converted ones");
                    if let (Some(p), Some(q)) = (p, q) {
                        ensure!((p.length() - q.length()).abs() <= 2e-2 * q.length() + 1e-4, "penetrates {p:?} by engine transforms, {q:?} by converted ones");
                    }
                    let (p, q) = (lib("distance_to", || ($x, &a).distance_to(($y, &b)))?, lib("distance_to", || ($x, &ta).distance_to(($y, &tb)))?);
                    ensure!(p.is_none() == d.0 && p.is_some() == q.is_some(), "distance_to {p:?} by engine transforms, {q:?} by converted ones");
                    if let (Some(p), Some(q)) = (p, q) {
                        ensure!(near(p, q) || (p.length() - q.length()).abs() <= 2e-2 * q.length() + 1e-4, "distance_to {p:?} by engine transforms, {q:?} by converted ones");
                    }
                }
            }};
        }
        same!(&boxy, &other);
        same!(&boxy, &ball);
        same!(&ball, &ball);
        same!(&boxy, &Point);
        same!(&Point, &ball);
        same!(&tri, &boxy);
        same!(&tri, &hex);
        same!(&Shape2d::ball(0.4), &Shape2d::rect(0.6, 0.3));
        macro_rules! scalar {
            ($x:expr, $y:expr) => {{
                let (d, e) = (lib("sdf", || ($x, &ta).sdf(($y, &tb)))?, lib("sdf", || ($x, &a).sdf(($y, &b)))?);
                ensure!((d - e).abs() <= 1e-4 * (1.0 + d.abs()), "sdf {e} by engine transforms, {d} by converted ones");
            }};
        }
        scalar!(&ball, &ball);
        scalar!(&ball, &Point);
        scalar!(&boxy, &Point);
        scalar!(&boxy, &ball);
        Ok("combined")
    });
}
