//! C28: queries in space and among tiles always answer, with numbers, and the same every time.
use crate::space::*;
use crate::with_kind;
use auburn::col2d::{AxisTransform2d, Box2d, Collides2d, CollidesRel2d, Tilemap, Transform2d, Translate2d};
use auburn::col3d::*;
use lk_math::vector::V2i32;
use mckit::{ensure, lib, Run, Verdict};

/// All that is asked about a shape and a point: flags as numbers.
fn ask<S, T: Rep>(shape: &S, at: &Spot, own: &Spot) -> Result<Vec<[f32; 3]>, String>
where
    S: CollidesRel3d<Point> + PenetratesRel3d<Point> + SdfRel3d<Point> + SdfvRel3d<Point> + DefaultCol3dImpls + ExtremePoint3d,
    Point: CollidesRel3d<S> + PenetratesRel3d<S> + SdfRel3d<S> + SdfvRel3d<S>,
{
    let (ta, tb) = (T::make(at), T::make(own));
    let rel = lib("delta_transform", || ta.delta_transform(&tb))?;
    let flag = |b: bool| [b as u8 as f32, 0.0, 0.0];
    let vec = |v: Vec3| [v.x, v.y, v.z];
    let maybe = |v: Option<Vec3>| v.map_or([-7.0; 3], vec);
    let mut out = vec![];
    for t in [&tb, &rel] {
        out.push(flag(lib("collides_rel", || shape.collides_rel(&Point, t))?));
        out.push(maybe(lib("penetrates_rel", || shape.penetrates_rel(&Point, t))?));
        out.push([lib("sdf_rel", || shape.sdf_rel(&Point, t))?, 0.0, 0.0]);
        out.push(vec(lib("sdfv_rel", || shape.sdfv_rel(&Point, t))?));
        out.push(flag(lib("Point.collides_rel", || CollidesRel3d::<S>::collides_rel(&Point, shape, t))?));
        out.push(maybe(lib("Point.penetrates_rel", || PenetratesRel3d::<S>::penetrates_rel(&Point, shape, t))?));
        out.push([lib("Point.sdf_rel", || SdfRel3d::<S>::sdf_rel(&Point, shape, t))?, 0.0, 0.0]);
        out.push(vec(lib("Point.sdfv_rel", || SdfvRel3d::<S>::sdfv_rel(&Point, shape, t))?));
    }
    out.push(flag(lib("collides", || shape.collides(&ta, &Point, &tb))?));
    out.push(flag(lib("Point.collides", || Collides3d::<S, T>::collides(&Point, &tb, shape, &ta))?));
    out.push(maybe(lib("penetrates", || shape.penetrates(&ta, &Point, &tb))?));
    out.push(maybe(lib("Point.penetrates", || Penetrates3d::<S, T>::penetrates(&Point, &tb, shape, &ta))?));
    out.push(vec(lib("extreme_point", || shape.extreme_point(Vec3::from(own.p)))?));
    Ok(out)
}

fn both<S, T: Rep>(shape: &S, at: &Spot, own: &Spot) -> Verdict
where
    S: CollidesRel3d<Point> + PenetratesRel3d<Point> + SdfRel3d<Point> + SdfvRel3d<Point> + DefaultCol3dImpls + ExtremePoint3d,
    Point: CollidesRel3d<S> + PenetratesRel3d<S> + SdfRel3d<S> + SdfvRel3d<S>,
{
    let a = ask::<S, T>(shape, at, own)?;
    for (i, v) in a.iter().enumerate() {
        ensure!(v.iter().all(|x| x.is_finite()), "answer {i} is {v:?}");
    }
    // something else in between
    let other = Spot { p: [0.3, -0.1, 0.2], ..*own };
    ask::<S, T>(shape, at, &other)?;
    let b = ask::<S, T>(shape, at, own)?;
    let bits = |a: &[[f32; 3]]| -> Vec<[u32; 3]> { a.iter().map(|v| v.map(f32::to_bits)).collect() };
    ensure!(bits(&a) == bits(&b), "asked again the answers are {b:?} instead of {a:?}");
    Ok(if a[0][0] == 1.0 { "overlap" } else { "apart" })
}

fn any<T: Rep>(half: [f32; 3], ball: bool, at: &Spot, own: &Spot) -> Verdict {
    if ball {
        both::<Ball, T>(&Ball::with_radius(half[0]), at, own)
    } else {
        both::<Box3d, T>(&Box3d::with_halfdims(half[0], half[1], half[2]), at, own)
    }
}

fn next(x: f32, by: i32) -> f32 {
    if x == 0.0 {
        f32::from_bits(by.unsigned_abs()).copysign(by as f32)
    } else {
        f32::from_bits((x.to_bits() as i32 + by) as u32)
    }
}

fn space(run: &mut Run) {
    let lengths = [0.0f32, 1e-45, 1e-30, 1e-19, 1e-4, 1.0, 1e6];
    let mut shapes: Vec<([f32; 3], bool)> = lengths.iter().map(|&r| ([r; 3], true)).collect();
    for h in [[0.0; 3], [1e-45; 3], [1e-19, 1e-20, 1e-19], [1.0; 3], [1e-4, 1e-4, 1e-3], [1.0, 0.0, 1.0], [0.0, 0.0, 2.0], [1e6, 1e-6, 1.0], [1e6; 3]] {
        shapes.push((h, false));
    }
    if !run.quick() {
        for r in [1e-40f32, 1e-22, 1e-10, 1e-7, 0.1, 3.3, 1e3, 33333.3] {
            shapes.push(([r; 3], true));
            shapes.push(([r, 0.7 * r, 1.3 * r], false));
            shapes.push(([r, 1.0, 0.0], false));
        }
    }
    // per axis: the centre, next to it, the face, next to it, halfway, beyond
    let deep = !run.quick();
    let per_axis = move |h: f32| -> Vec<f32> {
        let mut xs = vec![0.0, -0.0, 1e-45, -1e-38, 1e-25, 1e-19, -1e-7, h, -h, next(h, 1), next(h, -1), 0.5 * h, -2.0 * h, 1e6];
        if deep {
            xs.extend([-1e-45, 1e-38, -1e-22, 1e-10, 1e-4, next(-h, 1), next(-h, -1), h + 1e-19, 1.001 * h, 0.999 * h, 1.0, -0.3, -33.3, -1e6]);
        }
        xs
    };
    let n = per_axis(1.0).len();
    for kind in KINDS {
        let z = [0.0, 0.0, 1.0];
        let mut ats = vec![Spot::new(z, 0.0, 1.0, [0.0; 3]), Spot::new(z, 0.0, 1.0, [3.0, -2e3, 0.5])];
        if kind.scales() {
            ats.extend([Spot::new(z, 0.0, 1e-4, [0.0; 3]), Spot::new(z, 0.0, 1e4, [1.0, 0.0, 0.0])]);
        }
        if kind.turns() {
            ats.extend([Spot::new([1.0, 2.0, 3.0], 2.1, 1.0, [0.0; 3]), Spot::new([-1.0, 0.3, 0.2], std::f64::consts::PI, 0.25, [1e6, -1e6, 1e6])]);
        }
        let own = |ix: &[usize]| {
            let h = shapes[ix[0]].0;
            let p = [0, 1, 2].map(|i| per_axis(h[i])[ix[2 + i]]);
            Spot { p, ..ats[(ix[2] + ix[3]) % ats.len()] }
        };
        run.lattice(
            &format!("space-{kind:?}"),
            &[shapes.len(), ats.len(), n, n, n],
            &|ix| format!("{} {:?} at {:?} and a point at {:?}, by {kind:?}", ["box", "ball"][shapes[ix[0]].1 as usize], shapes[ix[0]].0, ats[ix[1]], own(ix)),
            &|ix| {
                let ((half, ball), at, own) = (shapes[ix[0]], &ats[ix[1]], own(ix));
                with_kind!(kind, any(half, ball, at, &own))
            },
        );
    }
}

fn tiles(run: &mut Run) {
    let t = |x: i32, y: i32| V2i32::from_xy(x, y);
    let maps: Vec<Vec<V2i32>> = vec![
        vec![],
        vec![t(0, 0)],
        (0..9).map(|i| t(i % 3 - 1, i / 3 - 1)).collect(),
        (0..256).map(|i| t(i % 16, i / 16)).collect(),
        vec![t(i32::MAX, i32::MAX), t(i32::MIN, i32::MIN), t(i32::MAX, i32::MIN), t(0, i32::MAX), t(i32::MIN, 0), t(1_000_000, -1_000_000)],
        (-4..20).map(|i| t(i, 0)).chain((0..20).map(|i| t(-4, i))).collect(),
    ];
    let xs = [
        0.0f32, -0.0, 1e-45, -1e-20, 0.25, 0.5, -0.5, 0.49999997, 1.5, -3.5, 15.5, 16.0, 1e6, -1e6, 8_388_609.0, 16_777_216.0, 2_147_483_520.0, 2_147_483_648.0,
        -2_147_483_648.0, 3e9, -1e20, f32::MAX, f32::MIN,
    ];
    let dirs = [0.0f32, -0.0, 1.0, -1.0, 1e-45, f32::MAX];
    let (nx, nd) = (xs.len(), dirs.len());
    let copies = maps.clone();
    let own: mckit::PerThread<Vec<Tilemap>> = mckit::PerThread::new(move || {
        copies
            .iter()
            .map(|ts| {
                let mut m = Tilemap::default();
                for &p in ts {
                    m.set_tile(p, 1);
                }
                m
            })
            .collect()
    });
    let radii = [0.0f32, 1e-45, 1e-19, 0.3, 0.5, 1.0, 3.3];
    let ask = |m: &Tilemap, p: Vec2, d: Vec2| -> Result<Vec<u32>, String> {
        let mut out = vec![];
        out.push(lib("collides_rel", || m.collides_rel(&Point, &p))? as u32);
        out.push(lib("collides_rel", || m.collides_rel(&Point, &Translate2d::from(p)))? as u32);
        out.push(lib("collides_rel", || m.collides_rel(&Point, &AxisTransform2d::new(p, 2.0)))? as u32);
        out.push(lib("collides", || (m, &Transform2d::default()).collides((&Point, &Transform2d::from_translation(p))))? as u32);
        let tile = lib("world_to_tile_pos", || m.world_to_tile_pos(&p))?;
        out.extend([tile.x() as u32, tile.y() as u32, lib("get_tile", || m.get_tile(tile))? as u32]);
        for r in radii {
            for v in [
                lib("simple_resolve_ball", || m.simple_resolve_ball(&Ball::with_radius(r), p, &d))?,
                lib("simple_resolve_box", || m.simple_resolve_box(&Box2d::with_halfdims(r, 0.4), p, &d))?,
            ] {
                ensure!(v.is_finite(), "a shape of size {r} is resolved to {v:?}");
                out.extend([v.x.to_bits(), v.y.to_bits()]);
            }
            let q = lib("quantize", || m.quantize(&Box2d::with_halfdims(r, 0.4), &p))?;
            out.extend([q.min.x() as u32, q.min.y() as u32, q.max.x() as u32, q.max.y() as u32]);
        }
        Ok(out)
    };
    run.lattice(
        "tiles",
        &[maps.len(), nx, nx, nd, nd],
        &|ix| format!("map {}, position {} {}, direction {} {}", ix[0], xs[ix[1]], xs[ix[2]], dirs[ix[3]], dirs[ix[4]]),
        &|ix| {
            let m = &own.get()[ix[0]];
            let (p, d) = (Vec2::new(xs[ix[1]], xs[ix[2]]), Vec2::new(dirs[ix[3]], dirs[ix[4]]));
            let a = ask(m, p, d)?;
            ask(m, Vec2::new(0.3, -0.4), -d)?;
            let b = ask(m, p, d)?;
            ensure!(a == b, "asked again the answers differ");
            Ok(if a[0] == 1 { "solid" } else { "free" })
        },
    );
    // wide ones
    let sizes: Vec<f32> = (0..run.tier.pick(24, 60)).map(|i| 4.0 * 10f32.powf(i as f32 * 1.6 / run.tier.pick(24, 60) as f32)).collect();
    let places = [[0.3f32, 0.0], [-3.5, 500.0], [1e6, -1e6], [2_147_483_648.0, 0.0], [15.5, -16.0]];
    run.lattice(
        "wide-tiles",
        &[maps.len(), places.len(), 3, sizes.len(), 4],
        &|ix| format!("map {}, position {:?}, size {} as {}, direction {}", ix[0], places[ix[1]], sizes[ix[3]], ["a ball", "a box", "a wide box"][ix[2]], ix[4]),
        &|ix| {
            let m = &own.get()[ix[0]];
            let (p, r) = (Vec2::from(places[ix[1]]), sizes[ix[3]]);
            let d = Vec2::new([1.0, -1.0][ix[4] % 2], [1.0, -1.0][ix[4] / 2]);
            let resolve = || match ix[2] {
                0 => lib("simple_resolve_ball", || m.simple_resolve_ball(&Ball::with_radius(r), p, &d)),
                1 => lib("simple_resolve_box", || m.simple_resolve_box(&Box2d::with_halfdims(r, 0.7 * r), p, &d)),
                _ => lib("simple_resolve_box", || m.simple_resolve_box(&Box2d::with_halfdims(r * r, 0.4), p, &d)),
            };
            let (a, b) = (resolve()?, resolve()?);
            ensure!(a.is_finite(), "resolved to {a:?}");
            ensure!(a == b, "resolved to {a:?}, then to {b:?}");
            Ok(if a == p { "stays" } else { "moves" })
        },
    );
}

pub fn c28(run: &mut Run) {
    run.stdout_must_be_silent = true;
    run.assume("shapes resolved against tiles are a few tiles wide: the time it takes grows with their area");
    space(run);
    tiles(run);
}
