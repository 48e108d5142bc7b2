//! C15 (contents) and C16 (events): the tilemap against a dictionary of tiles.
use auburn::col2d::{Tilemap, TilemapEvent};
use lk_math::vector::V2i32;
use mckit::{ensure, lib, Run};
use std::collections::BTreeMap;

pub const SIDE: i32 = 16;
pub type Pos = (i32, i32);

#[derive(Clone, Copy, Debug, PartialEq)]
pub enum Op {
    Set(Pos, u8),
    Remove(Pos),
}

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum Event {
    Created(Pos),
    Removed(Pos),
    Changed(Pos),
}

pub fn v(p: Pos) -> V2i32 {
    V2i32::from_xy(p.0, p.1)
}
pub fn chunk_of(p: Pos) -> Pos {
    (p.0.div_euclid(SIDE), p.1.div_euclid(SIDE))
}

/// The reference: chunks in existence, each with its non-zero tiles.
#[derive(Default, Clone, Debug, PartialEq, Eq)]
pub struct Model {
    pub chunks: BTreeMap<Pos, BTreeMap<Pos, u8>>,
    pub events: Vec<Event>,
}

impl Model {
    pub fn get(&self, p: Pos) -> u8 {
        self.chunks.get(&chunk_of(p)).and_then(|c| c.get(&p)).copied().unwrap_or(0)
    }
    pub fn apply(&mut self, op: Op) {
        match op {
            Op::Set(p, t) => {
                let c = chunk_of(p);
                let old = self.get(p);
                if !self.chunks.contains_key(&c) {
                    self.events.push(Event::Created(c));
                } else if old != t {
                    self.events.push(Event::Changed(c));
                }
                let tiles = self.chunks.entry(c).or_default();
                if t == 0 {
                    tiles.remove(&p);
                } else {
                    tiles.insert(p, t);
                }
            }
            Op::Remove(p) => {
                let c = chunk_of(p);
                if let Some(tiles) = self.chunks.get_mut(&c) {
                    let had = tiles.remove(&p).is_some();
                    if tiles.is_empty() {
                        self.chunks.remove(&c);
                        self.events.push(Event::Removed(c));
                    } else if had {
                        self.events.push(Event::Changed(c));
                    }
                }
            }
        }
    }
    /// Canonical content: the future behaviour of the reference depends on nothing else.
    pub fn key(&self) -> Vec<u8> {
        let mut k = vec![];
        let mut put = |p: &Pos| {
            k.extend(p.0.to_le_bytes());
            k.extend(p.1.to_le_bytes());
        };
        for (c, tiles) in &self.chunks {
            put(c);
            for p in tiles.keys() {
                put(p);
            }
        }
        for tiles in self.chunks.values() {
            k.push(255);
            k.extend(tiles.values());
        }
        k
    }
}

pub fn apply(m: &mut Tilemap, op: Op) -> Result<(), String> {
    match op {
        Op::Set(p, t) => lib("set_tile", || m.set_tile(v(p), t)),
        Op::Remove(p) => lib("remove_tile", || m.remove_tile(v(p))),
    }
}

/// Every position and chunk that could be confused with one of `near`: whole chunks of each, and their neighbours' borders.
pub struct Probe {
    pub tiles: Vec<Pos>,
    pub chunks: Vec<Pos>,
}

impl Probe {
    pub fn new(near: &[Pos]) -> Probe {
        let mut tiles = std::collections::BTreeSet::new();
        let mut chunks = std::collections::BTreeSet::new();
        for &p in near {
            let c = chunk_of(p);
            for dx in -1..=1i32 {
                for dy in -1..=1i32 {
                    chunks.insert((c.0 + dx, c.1 + dy));
                }
            }
            // mirrored and transposed chunks
            chunks.extend([(c.1, c.0), (-c.0, c.1), (c.0, -c.1), (0, 0)]);
            for x in 0..SIDE {
                for y in 0..SIDE {
                    tiles.insert((c.0 * SIDE + x, c.1 * SIDE + y));
                }
            }
            for (dx, dy) in [(1, 0), (-1, 0), (0, 1), (0, -1), (SIDE, 0), (-SIDE, 0), (0, SIDE), (0, -SIDE), (-SIDE, SIDE)] {
                if let (Some(x), Some(y)) = (p.0.checked_add(dx), p.1.checked_add(dy)) {
                    tiles.insert((x, y));
                }
            }
            if let (Some(a), Some(b)) = (p.0.checked_neg(), p.1.checked_neg()) {
                tiles.extend([(p.1, p.0), (a, p.1), (p.0, b), (a, b)]);
            }
        }
        Probe { tiles: tiles.into_iter().collect(), chunks: chunks.into_iter().collect() }
    }

    pub fn compare(&self, m: &Tilemap, w: &Model) -> Result<(), String> {
        for &p in &self.tiles {
            let t = lib("get_tile", || m.get_tile(v(p)))?;
            ensure!(t == w.get(p), "get_tile({p:?}) is {t} instead of {}", w.get(p));
        }
        for &c in &self.chunks {
            let got = lib("get_chunk", || m.get_chunk(&v(c)).map(|c| (c.array2d.width(), c.array2d.height(), c.array2d.data.iter().filter(|x| **x != 0).count(), c.array2d.data.len())))?;
            let want = w.chunks.get(&c).map(|t| (SIDE as usize, SIDE as usize, t.len(), (SIDE * SIDE) as usize));
            ensure!(got == want, "chunk {c:?} has (width, height, tiles set, cells) {got:?} instead of {want:?}");
        }
        // the tiles of a chunk as seen through the chunk
        for (c, tiles) in &w.chunks {
            let ch = lib("get_chunk", || m.get_chunk(&v(*c)))?.expect("compared above");
            for (p, t) in tiles {
                let l = (p.0 - c.0 * SIDE, p.1 - c.1 * SIDE);
                let got = lib("array2d.get", || ch.array2d.get(v(l)).copied())?;
                ensure!(got == Some(*t), "chunk {c:?} holds {got:?} at {l:?} instead of {t}");
            }
        }
        Ok(())
    }
}

pub fn events(m: &Tilemap) -> Vec<Event> {
    m.events
        .events
        .iter()
        .map(|e| match e {
            TilemapEvent::ChunkCreated(c) => Event::Created((c.x(), c.y())),
            TilemapEvent::ChunkRemoved(c) => Event::Removed((c.x(), c.y())),
            TilemapEvent::ChunkChanged(c) => Event::Changed((c.x(), c.y())),
        })
        .collect()
}

pub fn alphabet(ps: &[Pos], values: &[u8]) -> Vec<Op> {
    ps.iter().flat_map(|&p| values.iter().map(move |&t| Op::Set(p, t)).chain([Op::Remove(p)])).collect()
}

pub struct Space {
    pub name: &'static str,
    pub positions: Vec<Pos>,
    pub values: Vec<u8>,
    pub depth: (usize, usize),
    /// merge histories that lead to the same content
    pub merge: bool,
}

pub fn spaces() -> Vec<Space> {
    const M: i32 = i32::MAX;
    const L: i32 = i32::MIN;
    vec![
        // closed under the operations: covers histories of any length over this alphabet
        Space { name: "origin", positions: vec![(0, 0), (15, 15), (16, 0), (-1, -1)], values: vec![1, 255, 0], depth: (40, 40), merge: true },
        Space { name: "one-chunk", positions: vec![(0, 0), (1, 0), (0, 1), (15, 0), (0, 15)], values: vec![7, 0], depth: (40, 40), merge: true },
        Space { name: "borders", positions: vec![(-16, 31), (-17, 31), (-16, 32), (15, -1), (16, -1)], values: vec![128, 0], depth: (40, 40), merge: true },
        Space { name: "extremes", positions: vec![(M, M), (L, L), (L, M), (M - 15, M), (M - 16, 0)], values: vec![1, 0], depth: (40, 40), merge: true },
        Space { name: "values", positions: vec![(-5, 3), (11, 3)], values: vec![0, 1, 2, 127, 128, 254, 255], depth: (40, 40), merge: true },
        Space { name: "far", positions: vec![(1000, -2000), (-2000, 1000), (65536, 0), (0, 65536), (0, 0)], values: vec![3, 0], depth: (40, 40), merge: true },
        // every history, without merging, in case the map remembers more than its content
        Space { name: "histories-near", positions: vec![(3, 2), (2, 3), (-1, 3)], values: vec![1, 2, 0], depth: (4, 6), merge: false },
        Space { name: "histories-chunk", positions: vec![(0, 0), (-16, 0)], values: vec![9, 0], depth: (6, 8), merge: false },
    ]
}

fn explore(run: &mut Run, judge: &(dyn Fn(&Tilemap, &Model, &Probe, usize) -> Result<(), String> + Sync)) {
    for s in spaces() {
        let ops = alphabet(&s.positions, &s.values);
        let probe = Probe::new(&s.positions);
        run.histories(
            s.name,
            ops.len(),
            run.tier.pick(s.depth.0, s.depth.1),
            &|h| format!("{:?}", h.iter().map(|&i| ops[i]).collect::<Vec<_>>()),
            &|h| {
                let mut m = lib("default", Tilemap::default)?;
                let mut w = Model::default();
                let mut before = 0;
                for &i in h {
                    before = w.events.len();
                    apply(&mut m, ops[i])?;
                    w.apply(ops[i]);
                }
                judge(&m, &w, &probe, before)?;
                Ok(Some(if s.merge { w.key() } else { h.iter().map(|&x| x as u8).collect() }))
            },
        );
    }
}

/// Long histories over many chunks. Each step is compared where it acted; everything is at the end.
fn long(run: &mut Run, judge: &(dyn Fn(&Tilemap, &Model) -> Result<(), String> + Sync), check_events: bool) {
    let counts: Vec<usize> = run.tier.pick(vec![500, 20_000], vec![500, 3000, 20_000, 150_000]);
    // how the n-th position is chosen
    let at = |way: usize, i: i32| -> Pos {
        match way {
            // within one chunk
            0 => (i * 7 % SIDE, i / 3 % SIDE),
            // over neighbouring chunks
            1 => (i * 13 % 160 - 80, i * 11 % 170 - 80),
            // a chunk each
            2 => (SIDE * (i % 401 - 200) + 3, SIDE * (i / 401 % 300 - 17) - 2),
            // far apart
            _ => (i.wrapping_mul(1_000_003), i.wrapping_mul(-777_767)),
        }
    };
    run.lattice(
        "long",
        &[counts.len(), 4, 4],
        &|ix| format!("{} operations, positions in way {}, pattern {}", counts[ix[0]], ix[1], ix[2]),
        &|ix| {
            let (mut m, mut w) = (Tilemap::default(), Model::default());
            let n = counts[ix[0]] as i32;
            for i in 0..n {
                let p = at(ix[1], i);
                let op = match ix[2] {
                    // set only; set, then remove in the same order; toggle; set, overwrite, remove half
                    0 => Op::Set(p, (i % 255 + 1) as u8),
                    1 if i < n / 2 => Op::Set(p, 9),
                    1 => Op::Remove(at(ix[1], i - n / 2)),
                    2 if i % 2 == 0 => Op::Set(at(ix[1], i / 2), 1),
                    2 => Op::Remove(at(ix[1], i / 2)),
                    _ if i % 3 == 2 => Op::Remove(at(ix[1], i / 6 * 3)),
                    _ => Op::Set(p, (i % 3) as u8),
                };
                apply(&mut m, op)?;
                w.apply(op);
                let (Op::Set(p, _) | Op::Remove(p)) = op;
                for q in [p, at(ix[1], i / 2), at(ix[1], 0)] {
                    let t = lib("get_tile", || m.get_tile(v(q)))?;
                    ensure!(t == w.get(q), "after operation {i} ({op:?}), get_tile({q:?}) is {t} instead of {}", w.get(q));
                }
                if check_events {
                    let got = m.events.events.len();
                    ensure!(got == w.events.len(), "after operation {i} ({op:?}) there are {got} events instead of {}", w.events.len());
                }
            }
            let cells = (0..n).map(|i| at(ix[1], i)).collect::<std::collections::BTreeSet<_>>();
            for p in cells {
                let t = lib("get_tile", || m.get_tile(v(p)))?;
                ensure!(t == w.get(p), "get_tile({p:?}) is {t} instead of {}", w.get(p));
                let c = chunk_of(p);
                let exists = lib("get_chunk", || m.get_chunk(&v(c)).is_some())?;
                ensure!(exists == w.chunks.contains_key(&c), "chunk {c:?} exists: {exists}");
            }
            judge(&m, &w)?;
            Ok("long")
        },
    );
}

/// Two maps at a time, questions in between, and events taken away by whoever handles them: every history, without
/// merging. The maps are told apart, and remember nothing but tiles and undelivered events.
fn interleaved(run: &mut Run, check_events: bool) {
    #[derive(Clone, Copy, Debug, PartialEq)]
    enum Act {
        Do(usize, Op),
        Read(usize, Pos),
        Drain(usize),
    }
    let (p, q, r) = ((15, 2), (16, 2), (2, 15));
    let mut acts = vec![];
    for k in 0..2 {
        acts.extend([Act::Do(k, Op::Set(p, 1)), Act::Do(k, Op::Set(p, 0)), Act::Do(k, Op::Remove(p)), Act::Do(k, Op::Set(q, 2 + k as u8))]);
        acts.extend([Act::Read(k, p), Act::Read(k, q)]);
        if check_events {
            acts.push(Act::Drain(k));
        }
    }
    acts.extend([Act::Do(0, Op::Set(r, 3)), Act::Do(0, Op::Remove(q)), Act::Do(0, Op::Remove(r))]);
    let depth = run.tier.pick(5, 6);
    let probe = Probe { tiles: vec![p, q, r, (0, 0), (15, 3), (31, 2)], chunks: vec![(0, 0), (1, 0), (0, 1), (-1, 0)] };
    run.histories(
        "interleaved",
        acts.len(),
        depth,
        &|h| h.iter().map(|&a| format!("{:?}", acts[a])).collect::<Vec<_>>().join("; "),
        &|h| {
            mckit::cmp();
            let mut ms = [lib("default", Tilemap::default)?, lib("default", Tilemap::default)?];
            let mut ws = [Model::default(), Model::default()];
            for &a in h {
                match acts[a] {
                    Act::Do(k, op) => {
                        apply(&mut ms[k], op)?;
                        ws[k].apply(op);
                    }
                    Act::Read(k, at) => {
                        let t = lib("get_tile", || ms[k].get_tile(v(at)))?;
                        ensure!(t == ws[k].get(at), "get_tile({at:?}) of map {k} is {t} instead of {}", ws[k].get(at));
                    }
                    Act::Drain(k) => {
                        ms[k].events.events.clear();
                        ws[k].events.clear();
                    }
                }
                if check_events {
                    for k in 0..2 {
                        let got = events(&ms[k]);
                        ensure!(got == ws[k].events, "map {k} has the events {got:?} instead of {:?}", ws[k].events);
                    }
                }
            }
            if !check_events {
                for k in 0..2 {
                    probe.compare(&ms[k], &ws[k])?;
                }
            }
            Ok((h.len() < depth).then(|| h.iter().map(|&a| a as u8).collect()))
        },
    );
}

/// Chunks of every pair of values, and of any number of tiles of every value: what remains when one more tile is removed.
fn contents(run: &mut Run, judge: &(dyn Fn(&Tilemap, &Model, &Probe) -> Result<(), String> + Sync)) {
    let at = |i: usize| -> Pos { ((i % 16) as i32 - 16, (i / 16) as i32) };
    let whole = Probe { tiles: (0..256).map(at).collect(), chunks: vec![(-1, 0), (0, 0)] };
    let cells = |n: usize, k: usize| (0..n).map(move |i| i * [1, 37, 173][k] % 256);
    let play = |values: &[u8], k: usize| -> Result<(), String> {
        let (mut m, mut w) = (Tilemap::default(), Model::default());
        let mut ops: Vec<Op> = cells(values.len(), k).zip(values).map(|(i, t)| Op::Set(at(i), *t)).collect();
        // one more that goes again, then the first, and one that is not there
        let spare = if values.len() < 256 { at(values.len() * [1, 37, 173][k] % 256) } else { at(5) };
        let removals = [Op::Set(spare, 1), Op::Remove(spare), Op::Remove(spare), Op::Remove(at(0))];
        ops.extend(removals);
        let n = ops.len();
        for (i, op) in ops.into_iter().enumerate() {
            apply(&mut m, op)?;
            w.apply(op);
            if i + removals.len() >= n {
                judge(&m, &w, &whole)?;
            }
        }
        Ok(())
    };
    let play = &play;
    run.lattice("pairs", &[256, 256], &|ix| format!("tiles of {} and {}", ix[0], ix[1]), &|ix| {
        play(&[ix[0] as u8, ix[1] as u8], 0)?;
        Ok("pair")
    });
    run.lattice("filled", &[257, 256, run.tier.pick(1, 3)], &|ix| format!("{} tiles of {}, in order {}", ix[0], ix[1], ix[2]), &|ix| {
        play(&vec![ix[1] as u8; ix[0]], (ix[2] + ix[0] + ix[1]) % 3)?;
        Ok("filled")
    });
}

pub fn c15(run: &mut Run) {
    run.assume("positions and tile values are those of the alphabets listed under coverage.domains");
    interleaved(run, false);
    contents(run, &|m, w, probe| probe.compare(m, w));
    explore(run, &|m, w, probe, _| probe.compare(m, w));
    long(run, &|_, _| Ok(()), false);
    // two tiles whose coordinates differ by powers of two (or not at all): neither is mistaken for the other
    let bases: [Pos; 5] = [(0, 0), (5, -3), (-1000, 777), (123_457, -654_321), (i32::MAX, i32::MIN)];
    let apart = |i: usize| if i == 0 { 0i32 } else { 1i32 << ((i - 1) / 2) };
    let signed = |i: usize| if i % 2 == 0 { apart(i).wrapping_neg() } else { apart(i) };
    let two = |ix: &[usize]| {
        let p = bases[ix[0]];
        (p, (p.0.wrapping_add(signed(ix[1])), p.1.wrapping_add(signed(ix[2]))))
    };
    run.lattice(
        "alike",
        &[bases.len(), 65, 65],
        &|ix| {
            let (p, q) = two(ix);
            format!("tiles at {p:?} and {q:?}")
        },
        &|ix| {
            let (p, q) = two(ix);
            if p == q {
                return Ok("the same");
            }
            let (mut m, mut w) = (Tilemap::default(), Model::default());
            let probe = Probe { tiles: vec![p, q, (p.0, q.1), (q.0, p.1), (p.1, p.0), (q.1, q.0)], chunks: vec![chunk_of(p), chunk_of(q), chunk_of((p.0, q.1)), chunk_of((q.0, p.1))] };
            for op in [Op::Set(p, 1), Op::Set(q, 2), Op::Set(p, 0), Op::Set(p, 3), Op::Remove(p), Op::Remove(q)] {
                apply(&mut m, op)?;
                w.apply(op);
                probe.compare(&m, &w)?;
            }
            Ok("two")
        },
    );
    // a single tile anywhere in its chunk, in chunks of every sign: it is read there and nowhere else
    let cs = [0, 1, -1, 2, -7, 4096, -4096, 134217727, -134217728];
    run.lattice(
        "single",
        &[cs.len(), cs.len(), SIDE as usize, SIDE as usize],
        &|ix| format!("tile at {:?}", (cs[ix[0]] * SIDE + ix[2] as i32, cs[ix[1]] * SIDE + ix[3] as i32)),
        &|ix| {
            let p = (cs[ix[0]] * SIDE + ix[2] as i32, cs[ix[1]] * SIDE + ix[3] as i32);
            let (mut m, mut w) = (Tilemap::default(), Model::default());
            let probe = Probe::new(&[p]);
            for op in [Op::Set(p, 200), Op::Set(p, 0), Op::Set(p, 1)] {
                apply(&mut m, op)?;
                w.apply(op);
                probe.compare(&m, &w)?;
            }
            apply(&mut m, Op::Remove(p))?;
            w.apply(Op::Remove(p));
            probe.compare(&m, &w)?;
            Ok("single")
        },
    );
}

pub fn c16(run: &mut Run) {
    run.assume("positions and tile values are those of the alphabets listed under coverage.domains");
    interleaved(run, true);
    contents(run, &|m, w, _| {
        let got = events(m);
        ensure!(got == w.events, "the events are {got:?} instead of {:?}", w.events);
        Ok(())
    });
    explore(run, &|m, w, _, before| {
        let got = events(m);
        ensure!(got.len() >= before, "events disappeared: {got:?} instead of {:?}", w.events);
        ensure!(
            got == w.events,
            "the last operation reported {:?} instead of {:?}",
            &got[before..],
            &w.events[before..]
        );
        // replay onto a mirror that only knows which chunks exist and re-reads them when told
        let mut mirror = std::collections::BTreeSet::new();
        for e in &got {
            match e {
                Event::Created(c) => ensure!(mirror.insert(*c), "{c:?} is created twice"),
                Event::Removed(c) => ensure!(mirror.remove(c), "{c:?} is removed, but does not exist"),
                Event::Changed(c) => ensure!(mirror.contains(c), "{c:?} is changed, but does not exist"),
            }
        }
        for c in w.chunks.keys().chain(&mirror) {
            let exists = lib("get_chunk", || m.get_chunk(&v(*c)).is_some())?;
            ensure!(exists == mirror.contains(c), "chunk {c:?} exists: {exists}, by the events: {}", mirror.contains(c));
        }
        Ok(())
    });
    long(
        run,
        &|m, w| {
            ensure!(events(m) == w.events, "the history of events differs");
            Ok(())
        },
        true,
    );
}
