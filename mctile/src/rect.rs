//! C20: rectangle iteration and padding.
use auburn::utils::rect2::Rect2i32;
use lk_math::vector::V2i32;
use mckit::{ensure, lib, Run};

type Pos = (i32, i32);

fn cells(it: impl Iterator<Item = V2i32>, most: usize) -> Vec<Pos> {
    it.take(most).map(|p| (p.x(), p.y())).collect()
}

fn want(min: Pos, max: Pos, flip_x: bool, flip_y: bool) -> Vec<Pos> {
    let mut v = vec![];
    let (nx, ny) = (max.0 as i64 - min.0 as i64 + 1, max.1 as i64 - min.1 as i64 + 1);
    for j in 0..ny.max(0) {
        for i in 0..nx.max(0) {
            let x = if flip_x { max.0 as i64 - i } else { min.0 as i64 + i };
            let y = if flip_y { max.1 as i64 - j } else { min.1 as i64 + j };
            v.push((x as i32, y as i32));
        }
    }
    v
}

fn v(p: Pos) -> V2i32 {
    V2i32::from_xy(p.0, p.1)
}

/// Every way of iterating in the order given by the two flips.
fn ways(r: &Rect2i32, fx: bool, fy: bool) -> Vec<(&'static str, Box<dyn Iterator<Item = V2i32> + '_>)> {
    let d = |f: bool| if f { -2.0 } else { 0.5 };
    let mut w: Vec<(&'static str, Box<dyn Iterator<Item = V2i32> + '_>)> =
        vec![("iterate_boxed", r.iterate_boxed(fx, fy)), ("iterate_with_direction_f32", r.iterate_with_direction_f32(d(fx), d(fy)))];
    match (fx, fy) {
        (false, false) => {
            w.push(("iterate", Box::new(r.iterate())));
            w.push(("iterate_north_east", Box::new(r.iterate_north_east())));
        }
        (true, false) => w.push(("iterate_north_west", Box::new(r.iterate_north_west()))),
        (false, true) => w.push(("iterate_south_east", Box::new(r.iterate_south_east()))),
        (true, true) => w.push(("iterate_south_west", Box::new(r.iterate_south_west()))),
    }
    w
}

/// Takes the first cells of rectangles that no memory holds: done by a process of its own that may run out of memory.
pub fn begin_huge() {
    for k in 0..4 {
        let _ = lib("iterate", || {
            let r = Rect2i32::min_max(v((i32::MIN, i32::MIN)), v((i32::MAX, i32::MAX)));
            for (_, mut it) in ways(&r, k & 1 == 1, k & 2 == 2) {
                it.next();
            }
        });
    }
}

/// Whether iterators start before all of their cells exist. If not, rectangles of any size cannot be asked for.
fn lazy() -> bool {
    let Ok(exe) = std::env::current_exe() else { return false };
    let child = std::process::Command::new("/bin/sh")
        .args(["-c", "ulimit -v 2000000; exec timeout 20 \"$0\" begin-huge"])
        .arg(exe)
        .stdout(std::process::Stdio::null())
        .stderr(std::process::Stdio::null())
        .status();
    child.is_ok_and(|s| s.success())
}

pub fn c20(run: &mut Run) {
    run.assume("rectangles of up to 200000 cells (every one of up to 7 cells a side), at the origin and at both ends of the coordinate range; inverted ones by up to 4");
    let side = run.tier.pick(6usize, 9);
    let bases = [-2, 0, 1, 30, i32::MIN, i32::MIN + 40, i32::MAX - 12, i32::MAX - 3, i32::MAX, -1000];
    let dirs = [1.0f32, -1.0, 0.0, -0.0, 1e-30, -1e-30, f32::INFINITY, f32::NEG_INFINITY, 250.0, -0.3];
    let n = dirs.len();
    // extent offset by -4: inverted, empty, single cell, ...
    let corner = |ix: &[usize]| -> (Pos, Pos) {
        let (x, y) = (bases[ix[0]], bases[ix[1]]);
        let e = |i: usize| i as i32 - 4;
        ((x, y), (x.saturating_add(e(ix[2])), y.saturating_add(e(ix[3]))))
    };
    run.lattice(
        "iteration",
        &[bases.len(), bases.len(), side + 4, side + 4],
        &|ix| format!("{:?}", corner(ix)),
        &|ix| {
            let (min, max) = corner(ix);
            let v = |p: Pos| V2i32::from_xy(p.0, p.1);
            let r = lib("min_max", || Rect2i32::min_max(v(min), v(max)))?;
            let most = 500;
            let orders: [(&str, bool, bool, Vec<Pos>); 5] = [
                ("iterate", false, false, lib("iterate", || cells(r.iterate(), most))?),
                ("iterate_north_east", false, false, lib("iterate_north_east", || cells(r.iterate_north_east(), most))?),
                ("iterate_south_east", false, true, lib("iterate_south_east", || cells(r.iterate_south_east(), most))?),
                ("iterate_south_west", true, true, lib("iterate_south_west", || cells(r.iterate_south_west(), most))?),
                ("iterate_north_west", true, false, lib("iterate_north_west", || cells(r.iterate_north_west(), most))?),
            ];
            for (name, fx, fy, got) in orders {
                let w = want(min, max, fx, fy);
                ensure!(got == w, "{name} visits {got:?} instead of {w:?}");
            }
            for (fx, fy) in [(false, false), (false, true), (true, false), (true, true)] {
                let got = lib("iterate_boxed", || cells(r.iterate_boxed(fx, fy), most))?;
                let w = want(min, max, fx, fy);
                ensure!(got == w, "iterate_boxed({fx}, {fy}) visits {got:?} instead of {w:?}");
            }
            for k in 0..n * n {
                let (dx, dy) = (dirs[k / n], dirs[k % n]);
                let got = lib("iterate_with_direction_f32", || cells(r.iterate_with_direction_f32(dx, dy), most))?;
                let w = want(min, max, dx < 0.0, dy < 0.0);
                ensure!(got == w, "iterate_with_direction_f32({dx}, {dy}) visits {got:?} instead of {w:?}");
            }
            Ok(if max.0 < min.0 || max.1 < min.1 { "empty" } else { "cells" })
        },
    );
    // long and large ones
    let lengths: Vec<i32> = run.tier.pick(vec![1, 2, 10, 33, 100, 257, 1200, 6001, 33_000, 70_001], vec![1, 2, 3, 10, 33, 100, 257, 500, 1000, 2500, 4099, 6001, 10_000, 20_000, 33_000, 70_001, 150_000]);
    let starts = [0, -50, i32::MIN, i32::MAX - 160_000, 70_000];
    run.lattice(
        "large",
        &[lengths.len(), lengths.len(), starts.len(), starts.len(), 4],
        &|ix| format!("{} x {} cells from {} {}", lengths[ix[0]], lengths[ix[1]], starts[ix[2]], starts[ix[3]]),
        &|ix| {
            let (w, h, min) = (lengths[ix[0]], lengths[ix[1]], (starts[ix[2]], starts[ix[3]]));
            if w as i64 * h as i64 > 200_000 {
                return Ok("too large");
            }
            let max = (min.0 + w - 1, min.1 + h - 1);
            let (fx, fy) = (ix[4] & 1 == 1, ix[4] & 2 == 2);
            let v = |p: Pos| V2i32::from_xy(p.0, p.1);
            let r = lib("min_max", || Rect2i32::min_max(v(min), v(max)))?;
            let most = (w * h + 10) as usize;
            let all = want(min, max, fx, fy);
            let same = |name: &str, got: Vec<Pos>| -> Result<(), String> {
                let i = got.iter().zip(&all).position(|(a, b)| a != b).unwrap_or(got.len().min(all.len()));
                ensure!(got == all, "{name} visits {} cells instead of {}; number {i} is {:?} instead of {:?}", got.len(), all.len(), got.get(i), all.get(i));
                Ok(())
            };
            same("iterate_boxed", lib("iterate_boxed", || cells(r.iterate_boxed(fx, fy), most))?)?;
            let d = |f: bool| if f { -2.0 } else { 0.5 };
            same("iterate_with_direction_f32", lib("iterate_with_direction_f32", || cells(r.iterate_with_direction_f32(d(fx), d(fy)), most))?)?;
            match ix[4] {
                0 => {
                    same("iterate", lib("iterate", || cells(r.iterate(), most))?)?;
                    same("iterate_north_east", lib("iterate_north_east", || cells(r.iterate_north_east(), most))?)?
                }
                1 => same("iterate_north_west", lib("iterate_north_west", || cells(r.iterate_north_west(), most))?)?,
                2 => same("iterate_south_east", lib("iterate_south_east", || cells(r.iterate_south_east(), most))?)?,
                _ => same("iterate_south_west", lib("iterate_south_west", || cells(r.iterate_south_west(), most))?)?,
            }
            Ok("cells")
        },
    );
    // so large that only the beginning can be looked at
    let spans: [i64; 11] = [1, 2, 3, 1000, 65_535, 65_536, 65_537, 1 << 20, 1 << 31, (1 << 31) + 1, 1 << 32];
    let lazy = lazy();
    let most = run.tier.pick(3000usize, 200_000);
    let huge = |ix: &[usize]| -> (Pos, Pos) {
        let at = |span: i64, place: usize| -> (i32, i32) {
            let lo = match place {
                0 => i32::MIN as i64,
                1 => i32::MAX as i64 - span + 1,
                _ => (-span / 2 - 7).max(i32::MIN as i64),
            };
            (lo as i32, (lo + span - 1) as i32)
        };
        let (x, y) = (at(spans[ix[0]], ix[2]), at(spans[ix[1]], ix[3]));
        ((x.0, y.0), (x.1, y.1))
    };
    run.lattice("huge", &[spans.len(), spans.len(), 3, 3, 4], &|ix| format!("{:?}, flipped {}", huge(ix), ix[4]), &|ix| {
        if !lazy {
            return Ok("not judged: all cells are made before the first is visited");
        }
        let (min, max) = huge(ix);
        let (w, h) = (spans[ix[0]], spans[ix[1]]);
        let (fx, fy) = (ix[4] & 1 == 1, ix[4] & 2 == 2);
        let r = lib("min_max", || Rect2i32::min_max(v(min), v(max)))?;
        let n = (w.saturating_mul(h)).min(most as i64);
        for (name, it) in lib("iterate", || ways(&r, fx, fy))? {
            let got = lib("iterate", || cells(it, most))?;
            ensure!(got.len() as i64 == n, "{name} visits {} cells instead of {n} or more", got.len());
            for (i, c) in got.into_iter().enumerate() {
                let (x, y) = (i as i64 % w, i as i64 / w);
                let at = (if fx { max.0 as i64 - x } else { min.0 as i64 + x } as i32, if fy { max.1 as i64 - y } else { min.1 as i64 + y } as i32);
                ensure!(c == at, "{name} visits {c:?} as number {i} instead of {at:?}");
            }
        }
        Ok("begun")
    });
    let xs = [-1000, -3, -1, 0, 1, 2, 500];
    let ps = [-2, 0, 1, 3, 40];
    let dims = [xs.len(), xs.len(), xs.len(), xs.len(), ps.len(), ps.len()];
    run.lattice("pad", &dims, &|ix| format!("{:?}", ix.iter().take(4).map(|&i| xs[i]).collect::<Vec<_>>()), &|ix| {
        let (a, b, c, d, p, q) = (xs[ix[0]], xs[ix[1]], xs[ix[2]], xs[ix[3]], ps[ix[4]], ps[ix[5]]);
        let r = lib("pad", || Rect2i32::min_max(V2i32::from_xy(a, b), V2i32::from_xy(c, d)).pad(V2i32::from_xy(p, q)))?;
        let got = (r.min.x(), r.min.y(), r.max.x(), r.max.y());
        let w = (a - p, b - q, c + p, d + q);
        ensure!(got == w, "padding by {p} {q} yields {got:?} instead of {w:?}");
        Ok("pad")
    });
}
