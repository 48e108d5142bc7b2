//! The rest of C27: maps of tiles, their files, space, polygons, rectangles, publishers and numbers, with logging and without.
use crate::logging::{Domain, Item};
use auburn::col2d::{Ball, Box2d, CollidesRel2d, PenetratesRel2d, Poly2d, Tilemap, TilemapEvent, Transform2d, Translate2d, Vec2};
use auburn::col3d::{self, *};
use auburn::utils::approx::Approx;
use auburn::utils::publisher::*;
use auburn::utils::rect2::Rect2i32;
use auburn::{Lerp, Square};
use lk_math::vector::V2i32;
use mckit::{lib, Tier};

/// A yes or no, or a whole number: compared exactly.
fn whole(n: i64) -> Item {
    Item(10, f32::from_bits(n as u32), f32::from_bits((n >> 32) as u32))
}
fn yes(b: bool) -> Item {
    Item(b as u8, 0.0, 0.0)
}
fn num(x: f32) -> Item {
    Item(6, if x.is_nan() { f32::NAN } else { x + 0.0 }, 0.0)
}
fn two(v: Vec2) -> [Item; 2] {
    [num(v.x), num(v.y)]
}
fn three(v: Vec3) -> [Item; 3] {
    [num(v.x), num(v.y), num(v.z)]
}
/// What `f` collects, or that it panicked.
fn collect(f: impl FnOnce(&mut Vec<Item>)) -> Vec<Item> {
    match lib("logged", || {
        let mut v = vec![];
        f(&mut v);
        v
    }) {
        Ok(v) => v,
        Err(_) => vec![Item(9, 0.0, 0.0)],
    }
}
fn at(p: (i32, i32)) -> V2i32 {
    V2i32::from_xy(p.0, p.1)
}

const PLACES: [(i32, i32); 6] = [(0, 0), (15, 3), (16, 3), (-1, -17), (1 << 20, 5), (i32::MAX, i32::MIN)];
/// 0..18: remove, or set to 0, 1 or 200, at one of the places (the later ones less often).
const ACTS: usize = 18;
fn act(m: &mut Tilemap, k: usize) {
    match k {
        0..=5 => m.set_tile(at(PLACES[k]), 1),
        6..=11 => m.remove_tile(at(PLACES[k - 6])),
        12 => m.set_tile(at(PLACES[0]), 0),
        13 => m.set_tile(at(PLACES[3]), 0),
        14 => m.set_tile(at(PLACES[1]), 200),
        15 => m.set_tile(at((1, 0)), 255),
        16 => m.set_tile(at((0, 1)), 7),
        _ => m.remove_tile(at((1, 0))),
    }
}
fn state(m: &Tilemap, v: &mut Vec<Item>) {
    for p in PLACES.into_iter().chain([(1, 0), (0, 1), (-1, 0), (3, 15)]) {
        v.push(whole(m.get_tile(at(p)) as i64));
        let (c, l) = m.tile_to_chunk_and_local_pos(&at(p));
        for n in [c, l, m.tile_to_chunk_pos(&at(p))] {
            v.extend([whole(n.x() as i64), whole(n.y() as i64)]);
        }
        v.push(whole(m.get_chunk(&c).map_or(-1, |c| c.array2d.data.iter().map(|&x| x as i64).sum())));
    }
    for e in &m.events.events {
        let (k, c) = match e {
            TilemapEvent::ChunkCreated(c) => (0, c),
            TilemapEvent::ChunkRemoved(c) => (1, c),
            TilemapEvent::ChunkChanged(c) => (2, c),
        };
        v.extend([whole(k), whole(c.x() as i64), whole(c.y() as i64)]);
    }
}
fn history(i: usize, depth: usize) -> Vec<usize> {
    (0..depth).map(|k| i / (ACTS + 1).pow(k as u32) % (ACTS + 1)).take_while(|&a| a < ACTS).collect()
}
fn built(h: &[usize]) -> Tilemap {
    let mut m = Tilemap::default();
    for &k in h {
        act(&mut m, k);
    }
    m
}

fn space<A, B, T>(a: &A, b: &B, ta: &T, tb: &T, v: &mut Vec<Item>)
where
    A: CollidesRel3d<B> + PenetratesRel3d<B> + SdfRel3d<B> + SdfvRel3d<B>,
    T: Transformation3d + DeltaTransform + Invertible + Composable,
{
    let rel = ta.delta_transform(tb);
    for t in [tb, &rel] {
        v.push(yes(a.collides_rel(b, t)));
        match a.penetrates_rel(b, t) {
            None => v.push(yes(false)),
            Some(p) => v.extend(three(p)),
        }
        v.push(num(a.sdf_rel(b, t)));
        v.extend(three(a.sdfv_rel(b, t)));
    }
    let inv = ta.inverse().compose(tb);
    for t in [ta, tb, &rel, &inv] {
        v.extend(three(t.apply_origin()));
        v.extend(three(t.apply(Vec3::new(1.0, -2.0, 0.3))));
        v.extend(three(t.unapply(Vec3::new(1.0, -2.0, 0.3))));
    }
}

pub fn domains(tier: Tier) -> Vec<Domain> {
    let mut out = vec![];
    let depth = tier.pick(3, 4);
    let balls = [0.3f32, 0.5, 1.7];
    out.push(Domain {
        name: "tilemaps",
        dims: vec![(ACTS + 1usize).pow(depth as u32)],
        desc: Box::new(move |ix| format!("after operations {:?}", history(ix[0], depth))),
        answers: Box::new(move |ix| {
            let v = collect(|v| {
                let m = built(&history(ix[0], depth));
                state(&m, v);
                for p in [Vec2::ZERO, Vec2::new(0.3, 0.8), Vec2::new(15.6, 3.1), Vec2::new(-1.2, -16.9), Vec2::new(0.5, 0.5), Vec2::new(1e6, -3.0)] {
                    v.push(yes(m.collides_rel(&col3d::Point, &p)));
                    v.push(yes(m.collides_rel(&col3d::Point, &Translate2d::from(p))));
                    v.push(yes(m.collides_rel(&col3d::Point, &Transform2d::from_translation(p))));
                    // only whether it overlaps: there is no vector yet
                    v.push(yes(m.penetrates_rel(&col3d::Point, &p).is_some()));
                    v.push(yes(m.penetrates_rel(&col3d::Point, &Transform2d::from_translation(p)).is_some()));
                    let t = m.world_to_tile_pos(&p);
                    v.extend([whole(t.x() as i64), whole(t.y() as i64)]);
                    for r in balls {
                        for d in [Vec2::X, Vec2::new(-1.0, -0.5), Vec2::ZERO] {
                            v.extend(two(m.simple_resolve_ball(&Ball::with_radius(r), p, &d)));
                            v.extend(two(m.simple_resolve_box(&Box2d::with_halfdims(r, 0.8 * r), p, &d)));
                        }
                    }
                }
            });
            (v, 10.0)
        }),
    });
    let depth = tier.pick(2, 3);
    out.push(Domain {
        name: "files",
        dims: vec![(ACTS + 1usize).pow(depth as u32), 5],
        desc: Box::new(move |ix| format!("after operations {:?}, {}", history(ix[0], depth), ["saved and loaded", "loaded from a half of it", "loaded from nowhere", "saved to nowhere", "saved to a directory"][ix[1]])),
        answers: Box::new(move |ix| {
            let dir = format!("{}/mcgeo-files-{}", std::env::temp_dir().display(), std::process::id());
            thread_local! {
                static NAME: std::cell::RefCell<Option<(&'static str, &'static str, &'static str)>> = const { std::cell::RefCell::new(None) };
            }
            let me = format!("{:?}", std::thread::current().id());
            let (file, nowhere, directory) = NAME.with(|n| {
                *n.borrow_mut().get_or_insert_with(|| (&*Box::leak(format!("{dir}/{me}").into_boxed_str()), &*Box::leak(format!("{dir}/{me}.not/map").into_boxed_str()), &*Box::leak(format!("{dir}/{me}.dir").into_boxed_str())))
            });
            // another thread may have removed the folder meanwhile
            while std::fs::create_dir_all(directory).is_err() {}
            let v = collect(|v| {
                let m = built(&history(ix[0], depth));
                let load = |name: &'static str, v: &mut Vec<Item>| match Tilemap::load(name) {
                    Ok(l) => {
                        state(&l, v);
                        let mut l = l;
                        act(&mut l, 1);
                        act(&mut l, 6);
                        state(&l, v);
                    }
                    Err(e) => v.push(whole(100 + e.kind() as i64)),
                };
                match ix[1] {
                    0 => {
                        v.push(yes(m.save(file).is_ok()));
                        load(file, v);
                    }
                    1 => {
                        v.push(yes(m.save(file).is_ok()));
                        let all = std::fs::read(file).unwrap_or_default();
                        std::fs::write(file, &all[..all.len() / 2]).expect("write");
                        load(file, v);
                    }
                    2 => load(nowhere, v),
                    3 => v.push(yes(m.save(nowhere).is_ok())),
                    _ => {
                        v.push(yes(m.save(directory).is_ok()));
                        load(directory, v);
                    }
                }
            });
            let _ = std::fs::remove_file(file);
            let _ = std::fs::remove_dir(directory);
            // the last one to leave
            let _ = std::fs::remove_dir(&dir);
            (v, 1.0)
        }),
    });
    let few = [0.0f32, 0.4, -0.8, 1.0, -1.3, 7.0, 1e-20];
    let halves = [Vec3::new(1.0, 0.5, 0.8), Vec3::ZERO, Vec3::new(0.01, 3.0, 3.0)];
    let many = few.len();
    out.push(Domain {
        name: "space",
        dims: vec![2, halves.len(), many, many, many, 3],
        desc: Box::new(move |ix| format!("{} {:?} against a point at {} {} {}, pose {}", ["ball", "box"][ix[0]], halves[ix[1]], few[ix[2]], few[ix[3]], few[ix[4]], ix[5])),
        answers: Box::new(move |ix| {
            let (h, p) = (halves[ix[1]], Vec3::new(few[ix[2]], few[ix[3]], few[ix[4]]));
            let k = [1.0f32, 0.5, 3.0][ix[5]];
            let q = [Vec3::ZERO, Vec3::new(0.3, -0.2, 1.0), Vec3::new(-50.0, 1.0, 2.0)][ix[5]];
            let v = collect(|v| {
                let (ball, mut cube) = (col3d::Ball::with_radius(h.x), Box3d::new(h));
                let (ta, tb) = (AxisTransform3d::new(q, k), AxisTransform3d::new(p, 1.0));
                let (sa, sb) = (Translate3d::new(q), Translate3d::new(p));
                let point = col3d::Point;
                if ix[0] == 0 {
                    space(&ball, &point, &ta, &tb, v);
                    space(&ball, &point, &sa, &sb, v);
                    space(&point, &ball, &q, &p, v);
                } else {
                    space(&cube, &point, &ta, &tb, v);
                    space(&cube, &point, &sa, &sb, v);
                    space(&point, &cube, &q, &p, v);
                    v.extend(three(cube.extreme_point(p)));
                    cube.cover(&p);
                    v.extend(three(cube.halfsize));
                }
            });
            (v, 1.0)
        }),
    });
    let side = 3usize;
    let cells = side * side;
    let most = tier.pick(4, 5);
    out.push(Domain {
        name: "polygons",
        dims: vec![most + 1, cells.pow(most as u32)],
        desc: Box::new(move |ix| format!("{} points, list {}", ix[0], ix[1])),
        answers: Box::new(move |ix| {
            let pts: Vec<Vec2> = (0..ix[0]).map(|k| ix[1] / cells.pow(k as u32) % cells).map(|c| Vec2::new((c % side) as f32 - 0.8, (c / side) as f32 - 1.1)).collect();
            let v = collect(|v| {
                v.push(yes(Poly2d::new(&pts).strict_check()));
                // each once
                if ix[0] == 0 && ix[1] > 2 && ix[1] < 400 {
                    for (up, p) in [Poly2d::regular(ix[1], 2.0), Poly2d::regular_upright(ix[1], 0.5)].into_iter().enumerate() {
                        v.push(yes(p.strict_check()));
                        v.push(whole(up as i64));
                        for d in [Vec2::X, Vec2::new(-0.3, 1.0), Vec2::NEG_Y] {
                            v.extend(two(auburn::col2d::ExtremePoint2d::extreme_point(&p, d)));
                        }
                    }
                    v.push(yes(Poly2d::from(Box2d::with_halfdims(ix[1] as f32, 0.5)).strict_check()));
                }
            });
            (v, 1.0)
        }),
    });
    out.push(Domain {
        name: "rectangles",
        dims: vec![4, 4, 5, 5],
        desc: Box::new(|ix| format!("{} x {} cells from place {} {}", ix[0], ix[1], ix[2], ix[3])),
        answers: Box::new(|ix| {
            let lo = |span: usize, place: usize| [-1i64, 0, 5, i32::MIN as i64, i32::MAX as i64 - span as i64 + 1][place] as i32;
            let (x, y) = (lo(ix[0], ix[2]), lo(ix[1], ix[3]));
            // an empty one ends before it begins
            let end = |lo: i32, span: usize| (lo as i64 + span as i64 - 1).max(i32::MIN as i64) as i32;
            let v = collect(|v| {
                let r = Rect2i32::min_max(at((x, y)), at((end(x, ix[0]), end(y, ix[1]))));
                let all: [Box<dyn Iterator<Item = V2i32>>; 6] = [
                    Box::new(r.iterate()),
                    r.iterate_boxed(false, true),
                    r.iterate_boxed(true, false),
                    r.iterate_boxed(true, true),
                    r.iterate_with_direction_f32(0.0, -1.0),
                    r.iterate_with_direction_f32(-0.0, f32::NAN),
                ];
                for i in all {
                    for c in i.take(40) {
                        v.extend([whole(c.x() as i64), whole(c.y() as i64)]);
                    }
                    v.push(whole(-7));
                }
            });
            (v, 1.0)
        }),
    });
    out.push(Domain {
        name: "publishers",
        dims: vec![3usize.pow(6)],
        desc: Box::new(|ix| format!("attach (2) and notify (0, 1): {:?}", (0..6).map(|k| ix[0] / 3usize.pow(k) % 3).collect::<Vec<_>>())),
        answers: Box::new(|ix| {
            let seen = std::sync::Arc::new(std::sync::Mutex::new(vec![]));
            let v = collect(|v| {
                let (mut l, mut s, mut c) = (Ledger::new(), HashsetLedger::new(), CallbackPublisher::<usize>::new());
                for k in 0..6 {
                    match ix[0] / 3usize.pow(k) % 3 {
                        2 => {
                            let seen = seen.clone();
                            c.attach(move |e| seen.lock().unwrap().push((k, *e)));
                        }
                        e => {
                            l.notify(e);
                            s.notify(e);
                            c.notify(e);
                        }
                    }
                }
                v.extend(l.events.iter().map(|&e| whole(e as i64)));
                v.extend([yes(s.events.contains(&0)), yes(s.events.contains(&1)), whole(s.events.len() as i64)]);
                v.extend(seen.lock().unwrap().iter().map(|&(k, e)| whole((k as usize * 10 + e) as i64)));
            });
            (v, 1.0)
        }),
    });
    let odd = [0.0f32, -0.0, 1.0, 1.0000005, 1.1, -3.0, 1e-20, 1e20, f32::INFINITY, f32::NEG_INFINITY, f32::NAN, f32::MAX];
    let n = odd.len();
    out.push(Domain {
        name: "numbers",
        dims: vec![n, n, n],
        desc: Box::new(move |ix| format!("{} {} {}", odd[ix[0]], odd[ix[1]], odd[ix[2]])),
        answers: Box::new(move |ix| {
            let (a, b, c) = (odd[ix[0]], odd[ix[1]], odd[ix[2]]);
            let v = collect(|v| {
                v.push(yes(a.approx_eq(&b)));
                v.push(yes(a.approx_eq_tolerance(&b, c)));
                v.push(yes(Vec2::new(a, c).approx_eq(&Vec2::new(b, c))));
                v.push(yes(Vec3::new(a, b, c).approx_eq(&Vec3::new(b, b, c))));
                v.push(num(Lerp::lerp(a, b, c)));
                v.extend(two(Lerp::lerp(Vec2::new(a, 1.0), Vec2::new(b, 2.0), c)));
                v.push(num(a.square()));
            });
            (v, 1.0)
        }),
    });
    out
}
