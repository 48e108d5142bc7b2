//! C18: tile, chunk and world positions.
use crate::map::{v, Pos, SIDE};
use auburn::col2d::*;
use lk_math::vector::V2i32;
use mckit::{ensure, lib, Run};

fn p(x: V2i32) -> Pos {
    (x.x(), x.y())
}

pub fn c18(run: &mut Run) {
    run.assume("a position on the border of two tiles, within f32 rounding, may belong to either");
    run.assume("world coordinates are within 2^20 tiles of the origin, where f32 still tells parts of a tile apart");
    // the map is not assumed to be shareable between threads
    let own = mckit::PerThread::new(Tilemap::default);
    // whole neighbourhood of the origin, chunk borders far away, extremes
    let mut coords: Vec<i32> = (-40..=40).collect();
    for c in [1000i32, -1000, 65536, -65536, 16777216, -16777216, 1 << 30, -(1 << 30)] {
        coords.extend((-17..=17).map(|d| c + d));
    }
    coords.extend((0..20).flat_map(|d| [i32::MAX - d, i32::MIN + d]));
    coords.sort();
    coords.dedup();
    let n = coords.len();
    run.lattice("split", &[n, n], &|ix| format!("tile {:?}", (coords[ix[0]], coords[ix[1]])), &|ix| {
        let m = own.get();
        let t = (coords[ix[0]], coords[ix[1]]);
        let (c, l) = lib("tile_to_chunk_and_local_pos", || m.tile_to_chunk_and_local_pos(&v(t)))?;
        let (c, l) = (p(c), p(l));
        ensure!((0..SIDE).contains(&l.0) && (0..SIDE).contains(&l.1), "local position {l:?} is outside of the chunk");
        let back = (c.0 as i64 * SIDE as i64 + l.0 as i64, c.1 as i64 * SIDE as i64 + l.1 as i64);
        ensure!(back == (t.0 as i64, t.1 as i64), "chunk {c:?} and local {l:?} are {back:?}");
        let d = p(lib("tile_to_chunk_pos", || m.tile_to_chunk_pos(&v(t)))?);
        ensure!(c == d, "tile_to_chunk_pos is {d:?}, but the chunk is {c:?}");
        Ok("split")
    });
    // every tile column there is, each with some row: a state is a run of 4096 columns, of which quick takes every 16th
    let skip = run.tier.pick(16i64, 1);
    let column = |row: usize, i: i64| (i32::MIN as i64 + row as i64 * 4096 + i * skip + row as i64 % skip) as i32;
    let partner = |x: i32, row: usize| x.rotate_left(11).wrapping_mul(3) ^ (row as i32).wrapping_mul(0x61c8_8647);
    run.lattice("columns", &[1 << 20], &|ix| format!("tiles ({} ..), {} apart", column(ix[0], 0), skip), &|ix| {
        let m = own.get();
        mckit::cmps(3 * (4096 / skip) as u64);
        for i in 0..4096 / skip {
            let x = column(ix[0], i);
            for t in [(x, partner(x, ix[0])), (partner(x, ix[0]), x)] {
                let (c, l) = lib("tile_to_chunk_and_local_pos", || m.tile_to_chunk_and_local_pos(&v(t)))?;
                let (c, l) = (p(c), p(l));
                ensure!((0..SIDE).contains(&l.0) && (0..SIDE).contains(&l.1), "local position of {t:?} is {l:?}, outside of the chunk");
                let back = (c.0 as i64 * SIDE as i64 + l.0 as i64, c.1 as i64 * SIDE as i64 + l.1 as i64);
                ensure!(back == (t.0 as i64, t.1 as i64), "tile {t:?} is split into chunk {c:?} and local {l:?}, which are {back:?}");
                let d = p(lib("tile_to_chunk_pos", || m.tile_to_chunk_pos(&v(t)))?);
                ensure!(c == d, "tile_to_chunk_pos of {t:?} is {d:?}, but the chunk is {c:?}");
            }
        }
        Ok("run")
    });
    run.floats("numbers", 0.0, (1u32 << 20) as f32, skip as u32, &|x| {
        let m = own.get();
        let bits = x.to_bits();
        let other = [0.3f32, -7.6, 100.2, -0.0][(bits >> 8) as usize % 4];
        let w = if bits & 2048 == 0 { Vec2::new(x, other) } else { Vec2::new(other, x) };
        let t = p(lib("world_to_tile_pos", || m.world_to_tile_pos(&w))?);
        let tol = |x: f32| 0.5 + 1.2e-7 * x.abs().max(1.0) as f64;
        ensure!((w.x as f64 - t.0 as f64).abs() <= tol(w.x) && (w.y as f64 - t.1 as f64).abs() <= tol(w.y), "{w:?} belongs to tile {t:?}");
        Ok(())
    });
    run.lattice("chunk", &[1], &|_| "default chunk".into(), &|_| {
        let chunk = lib("default", Chunk::default)?;
        ensure!((chunk.array2d.width(), chunk.array2d.height()) == (SIDE as usize, SIDE as usize), "chunks are not {SIDE} tiles wide");
        ensure!(chunk.array2d.data.iter().all(|x| *x == 0), "a new chunk is not empty");
        Ok("chunk")
    });
    // tile -> world -> tile
    let whole: Vec<i32> = coords.iter().copied().filter(|c| c.unsigned_abs() <= 1 << 24).collect();
    run.lattice("round-trip", &[whole.len(), whole.len()], &|ix| format!("tile {:?}", (whole[ix[0]], whole[ix[1]])), &|ix| {
        let m = own.get();
        let t = (whole[ix[0]], whole[ix[1]]);
        let w = lib("tile_to_world_pos", || m.tile_to_world_pos(&v(t)))?;
        ensure!((w.x as f64, w.y as f64) == (t.0 as f64, t.1 as f64), "the centre of the tile is {w:?}");
        let back = p(lib("world_to_tile_pos", || m.world_to_tile_pos(&w))?);
        ensure!(back == t, "its centre belongs to tile {back:?}");
        Ok("round trip")
    });
    // world -> tile
    let offs = [0.0f64, 0.1, 0.25, 0.4375, 0.49, 0.5, 0.51, 0.5625, 0.75, 0.9, 1e-3, 1.0 - 1e-3];
    let bases = [-17i32, -16, -2, -1, 0, 1, 7, 15, 16, 31, -33, 100, 1000, -1000, 32768, -32767, 70000, -65536, 1 << 20, -(1 << 20)];
    let k = bases.len() * offs.len();
    let at = |i: usize| (bases[i / offs.len()] as f64 + offs[i % offs.len()]) as f32;
    run.lattice("world", &[k, k], &|ix| format!("world {} {}", at(ix[0]), at(ix[1])), &|ix| {
        let m = own.get();
        let w = Vec2::new(at(ix[0]), at(ix[1]));
        let t = p(lib("world_to_tile_pos", || m.world_to_tile_pos(&w))?);
        let e = (w.x as f64 - t.0 as f64, w.y as f64 - t.1 as f64);
        let tol = |x: f32| 0.5 + 1.2e-7 * x.abs().max(1.0) as f64;
        ensure!(e.0.abs() <= tol(w.x) && e.1.abs() <= tol(w.y), "belongs to tile {t:?}");
        let tie = |e: f64, x: f32| (e.abs() - 0.5).abs() <= 1.2e-7 * x.abs().max(1.0) as f64;
        Ok(if tie(e.0, w.x) || tie(e.1, w.y) { "border" } else { "tile" })
    });
    // boxes: edges of the covered range of tiles reach the edges of the box, and not a whole tile further
    let covers = |name: &str, lo: i32, hi: i32, c: f32, h: f32| -> Result<(), String> {
        let (c, h) = (c as f64, h as f64);
        let tol = 2.4e-7 * (c.abs() + h).max(1.0);
        let (a, b) = (lo as f64 - 0.5, hi as f64 + 0.5);
        ensure!(a <= c - h + tol && b >= c + h - tol, "{name} covers {lo}..{hi}, which misses tiles under the box from {} to {}", c - h, c + h);
        ensure!(a >= c - h - 1.0 - tol && b <= c + h + 1.0 + tol, "{name} covers {lo}..{hi}, which is too much for a box from {} to {}", c - h, c + h);
        Ok(())
    };
    let covers = &covers;
    let some = [0.5f32, 0.0, 3.0, 0.3, 17.5, 1e-3, 200.0, 0.7];
    run.floats("boxes", 0.0, (1u32 << 18) as f32, skip as u32, &|x| {
        let m = own.get();
        let k = (x.to_bits() >> 12) as usize;
        // the number as a position, and as a size
        for (c, h) in [(x, some[k % 8]), (x, some[k / 8 % 8]), (some[k / 3 % 8].copysign(x), x.abs())] {
            let o = (1.25f32, -0.5f32);
            let (b, w) = if k & 64 == 0 { ((h, o.0), (c, o.1)) } else { ((o.0, h), (o.1, c)) };
            let r = lib("quantize", || m.quantize(&Box2d::with_halfdims(b.0, b.1), &Vec2::new(w.0, w.1)))?;
            covers("x", r.min.x(), r.max.x(), w.0, b.0)?;
            covers("y", r.min.y(), r.max.y(), w.1, b.1)?;
        }
        Ok(())
    });
    let hs = [0.0f32, 0.2, 0.5, 0.7, 1.0, 2.3, 9.0, 16.0, 33.4, 250.0];
    let few: Vec<usize> = (0..k).step_by(run.tier.pick(3, 1)).collect();
    run.lattice(
        "quantize",
        &[few.len(), few.len(), hs.len(), hs.len()],
        &|ix| format!("box {} {} at {} {}", hs[ix[2]], hs[ix[3]], at(few[ix[0]]), at(few[ix[1]])),
        &|ix| {
        let m = own.get();
            let w = Vec2::new(at(few[ix[0]]), at(few[ix[1]]));
            let (hx, hy) = (hs[ix[2]], hs[ix[3]]);
            let r = lib("quantize", || m.quantize(&Box2d::with_halfdims(hx, hy), &w))?;
            covers("x", r.min.x(), r.max.x(), w.x, hx)?;
            covers("y", r.min.y(), r.max.y(), w.y, hy)?;
            Ok("box")
        },
    );
}
