//! C17: saving and loading.
use crate::map::{alphabet, apply, events, Model, Op, Pos, Probe};
use auburn::col2d::Tilemap;
use mckit::{ensure, lib, Run};

extern "C" {
    fn setrlimit(resource: i32, limits: *const [u64; 2]) -> i32;
    fn getrlimit(resource: i32, limits: *mut [u64; 2]) -> i32;
    fn signal(sig: i32, handler: usize) -> usize;
}
const RLIMIT_FSIZE: i32 = 1;
const SIGXFSZ: i32 = 25;

struct Scratch(String);
impl Scratch {
    fn new() -> Scratch {
        let d = format!("/tmp/auburn-mc-{}", std::process::id());
        std::fs::create_dir_all(&d).expect("scratch directory");
        // so that names without a directory stay inside as well
        std::env::set_current_dir(&d).expect("scratch directory");
        Scratch(d)
    }
    fn file(&self, name: &str) -> &'static str {
        Box::leak(format!("{}/{name}", self.0).into_boxed_str())
    }
}
impl Drop for Scratch {
    fn drop(&mut self) {
        let _ = std::env::set_current_dir("/");
        let _ = std::fs::remove_dir_all(&self.0);
    }
}

thread_local! {
    static PATH: std::cell::Cell<Option<&'static str>> = const { std::cell::Cell::new(None) };
}
/// One file for each worker thread.
fn mine(s: &Scratch) -> &'static str {
    PATH.with(|c| match c.get() {
        Some(p) if p.starts_with(&s.0) => p,
        _ => {
            let p = s.file(&format!("{:?}", std::thread::current().id()));
            c.set(Some(p));
            p
        }
    })
}

fn build(ops: &[Op]) -> Result<(Tilemap, Model), String> {
    let (mut m, mut w) = (lib("default", Tilemap::default)?, Model::default());
    for &op in ops {
        apply(&mut m, op)?;
        w.apply(op);
    }
    Ok((m, w))
}

fn save(m: &Tilemap, f: &'static str) -> Result<Result<(), String>, String> {
    Ok(lib("save", || m.save(f))?.map_err(|e| e.to_string()))
}
fn load(f: &'static str) -> Result<Result<Tilemap, String>, String> {
    Ok(lib("load", || Tilemap::load(f))?.map_err(|e| e.to_string()))
}

const M: i32 = i32::MAX;
const L: i32 = i32::MIN;

/// Maps of different contents and histories.
fn contents() -> Vec<(&'static str, Vec<Op>)> {
    use Op::*;
    let fill = |x0: i32, y0: i32, n: i32| -> Vec<Op> {
        (0..n * n).map(|i| Set((x0 + i % n, y0 + i / n), (1 + i % 255) as u8)).collect()
    };
    vec![
        ("empty", vec![]),
        ("one tile", vec![Set((0, 0), 1)]),
        ("emptied", vec![Set((3, 3), 1), Remove((3, 3))]),
        ("an empty chunk", vec![Set((3, 3), 0)]),
        ("a chunk set to zero", vec![Set((-3, 3), 7), Set((-3, 3), 0)]),
        ("extremes", vec![Set((M, M), 255), Set((L, L), 128), Set((L, M), 1), Set((M, L), 100)]),
        ("full chunk", fill(0, 0, 16)),
        ("full negative chunk", fill(-16, -32, 16)),
        ("nine chunks", fill(-15, -15, 33)),
        ("sixty-four chunks", (0..64).map(|i| Set((i % 8 * 16 + i - 60, i / 8 * 16 - i - 60), (i + 1) as u8)).collect()),
        ("a row of chunks", (0..300).map(|i| Set((i * 16 - 2000, 5), (i % 250 + 1) as u8)).collect()),
        ("asymmetric", vec![Set((1, 0), 1), Set((0, 2), 2), Set((17, 33), 3), Set((33, 17), 4)]),
    ]
}

pub fn c17(run: &mut Run) {
    run.assume("a save that is cut short is modelled by a limit on the file size (every byte of the file is a possible point of failure); a torn file is modelled by cutting it at every byte and by zeroing everything after every byte");
    run.assume("a file is complete once save reports success: loss of the file cache by a power cut is not modelled");
    let scratch = Scratch::new();
    let s = &scratch;
    let probe_all = |ops: &[Op]| Probe::new(&ops.iter().map(|o| match o { Op::Set(p, _) | Op::Remove(p) => *p }).collect::<Vec<Pos>>());

    // every history over a small alphabet: save, load, then every further operation on the loaded map
    for (name, ps, values, depth) in [
        ("histories-near", vec![(3, 2), (2, 3), (-1, 3)], vec![1u8, 255, 0], run.tier.pick(5, 9)),
        ("histories-far", vec![(M, L), (L, M), (16, 0), (15, 0)], vec![1, 0], run.tier.pick(4, 9)),
    ] {
        let ops = alphabet(&ps, &values);
        let probe = Probe::new(&ps);
        run.histories(
            name,
            ops.len(),
            depth,
            &|h| format!("{:?}, save, load", h.iter().map(|&i| ops[i]).collect::<Vec<_>>()),
            &|h| {
                let hist: Vec<Op> = h.iter().map(|&i| ops[i]).collect();
                let (m, w) = build(&hist)?;
                let f = mine(s);
                if let Err(e) = save(&m, f)? {
                    ensure!(false, "save failed: {e}");
                }
                probe.compare(&m, &w).map_err(|e| format!("saving changed the map: {e}"))?;
                for op in &ops {
                    let mut l = match load(f)? {
                        Ok(l) => l,
                        Err(e) => return Err(format!("load of what was saved failed: {e}")),
                    };
                    if *op == ops[0] {
                        probe.compare(&l, &w).map_err(|e| format!("loaded: {e}"))?;
                    }
                    ensure!(events(&l).is_empty(), "a loaded map already has events {:?}", events(&l));
                    let mut lw = Model { events: vec![], ..w.clone() };
                    apply(&mut l, *op)?;
                    lw.apply(*op);
                    probe.compare(&l, &lw).map_err(|e| format!("loaded, then {op:?}: {e}"))?;
                    ensure!(events(&l) == lw.events, "loaded, then {op:?}: events {:?} instead of {:?}", events(&l), lw.events);
                }
                Ok(Some(w.key()))
            },
        );
    }

    let cs = contents();
    // a single tile anywhere in its chunk, with every value somewhere
    run.lattice("values", &[16, 16, 4], &|ix| format!("tile {:?}", ix), &|ix| {
        let p = (ix[0] as i32 - 16 * (ix[2] as i32 & 1), ix[1] as i32 - 16 * (ix[2] as i32 >> 1));
        let ops = [Op::Set(p, ((ix[0] * 16 + ix[1]).max(1)) as u8)];
        let (m, w) = build(&ops)?;
        let f = mine(s);
        ensure!(save(&m, f)?.is_ok(), "save failed");
        match load(f)? {
            Ok(l) => probe_all(&ops).compare(&l, &w)?,
            Err(e) => return Err(format!("load of what was saved failed: {e}")),
        }
        Ok("round trip")
    });
    // whatever was at the path before, and saving again what was loaded
    run.lattice(
        "overwrite",
        &[cs.len(), cs.len()],
        &|ix| format!("save '{}', then '{}' to the same path, load", cs[ix[0]].0, cs[ix[1]].0),
        &|ix| {
            let f = mine(s);
            let (a, _) = build(&cs[ix[0]].1)?;
            let (b, w) = build(&cs[ix[1]].1)?;
            ensure!(save(&a, f)?.is_ok(), "save failed");
            ensure!(save(&b, f)?.is_ok(), "second save failed");
            let probe = Probe::new(&cs.iter().flat_map(|c| c.1.iter().map(|o| match o { Op::Set(p, _) | Op::Remove(p) => *p }).take(12)).collect::<Vec<_>>());
            for round in 0..2 {
                match load(f)? {
                    Ok(l) => {
                        probe.compare(&l, &w).map_err(|e| format!("round {round}: {e}"))?;
                        ensure!(save(&l, f)?.is_ok(), "saving the loaded map failed");
                    }
                    Err(e) => return Err(format!("load of what was saved failed: {e}")),
                }
            }
            Ok("overwritten")
        },
    );
    // torn files: cut at every byte, or zeros from every byte on
    let files: Vec<Vec<u8>> = cs
        .iter()
        .map(|c| {
            let f = mine(s);
            let Ok((m, _)) = build(&c.1) else { return vec![b'?'; 3] };
            let _ = save(&m, f);
            std::fs::read(f).unwrap_or_else(|_| vec![b'?'; 3])
        })
        .collect();
    let big = run.tier.pick(3000, 30_000);
    for (k, bytes) in files.iter().enumerate().filter(|(_, b)| b.len() <= big) {
        run.lattice(
            &format!("torn-{k}"),
            &[bytes.len().max(1), 2],
            &|ix| format!("file of '{}' {} byte {}", cs[k].0, if ix[1] == 0 { "cut at" } else { "zero from" }, ix[0]),
            &|ix| {
                let f = mine(s);
                let mut b = bytes[..ix[0].min(bytes.len())].to_vec();
                if ix[1] == 1 {
                    b.resize(bytes.len(), 0);
                }
                std::fs::write(f, &b).expect("scratch file");
                ensure!(load(f)?.is_err(), "load accepts an incomplete file of {} bytes", b.len());
                Ok("rejected")
            },
        );
    }
    // what is left when the beginning is lost, and more than was saved
    let tails: [&[u8]; 8] = [b"x", b"]", b"}", b"{", b"null", b"\0", b"0", b"{\"chunks\":[]}"];
    for (k, bytes) in files.iter().enumerate().filter(|(_, b)| b.len() <= big) {
        run.lattice(
            &format!("shifted-{k}"),
            &[bytes.len().max(1) + tails.len()],
            &|ix| if ix[0] < bytes.len() { format!("file of '{}' without its first {} bytes", cs[k].0, ix[0] + 1) } else { format!("file of '{}' with more behind", cs[k].0) },
            &|ix| {
                let f = mine(s);
                let b = if ix[0] < bytes.len() { bytes[ix[0] + 1..].to_vec() } else { [bytes, tails[(ix[0] - bytes.len()) % tails.len()]].concat() };
                std::fs::write(f, &b).expect("scratch file");
                ensure!(load(f)?.is_err(), "load accepts {:?}", String::from_utf8_lossy(&b[..b.len().min(60)]));
                Ok("rejected")
            },
        );
    }
    // files damaged in one place: an error, or a map that works
    let damaged = |run: &mut Run, name: &str, ops: &[Op], dims: &[usize], what: &(dyn Fn(&[usize]) -> String + Sync), edit: &(dyn Fn(&[usize]) -> Vec<u8> + Sync)| {
        let at: Vec<Pos> = ops.iter().map(|o| match o { Op::Set(p, _) | Op::Remove(p) => *p }).take(4).collect();
        run.lattice(name, dims, what, &|ix| {
            let f = mine(s);
            std::fs::write(f, edit(ix)).expect("scratch file");
            let Ok(mut m) = load(f)? else { return Ok("rejected") };
            let whole = auburn::col2d::Chunk::default().array2d;
            for p in &at {
                if let Some(c) = lib("get_chunk", || m.get_chunk(&crate::map::v((p.0 >> 4, p.1 >> 4))))? {
                    let a = &c.array2d;
                    ensure!(
                        a.dims == whole.dims && a.dim_strides == whole.dim_strides && a.data.len() == whole.data.len(),
                        "the loaded map has a chunk of {} tiles, dimensions {:?} and strides {:?}",
                        a.data.len(),
                        a.dims,
                        a.dim_strides
                    );
                }
                for i in 0..256 {
                    let q = crate::map::v(((p.0 & !15) + i % 16, (p.1 & !15) + i / 16));
                    let before = lib("get_tile", || m.get_tile(q))?;
                    lib("set_tile", || m.set_tile(q, before ^ 5))?;
                    ensure!(lib("get_tile", || m.get_tile(q))? == before ^ 5, "the loaded map does not keep the tile at {q:?}");
                    lib("set_tile", || m.set_tile(q, before))?;
                }
            }
            Ok("works")
        });
    };
    let replacements: &[u8] = run.tier.pick(b"0159,[]{}\":-. n\xff", b"0123456789,[]{}\":-.+eE \n\\ntrufalse\0\x7f\x80\xff");
    let numbers = ["", "0", "1", "15", "17", "32", "255", "256", "-1", "4294967296", "99999999999999999999", "16.0", "1e1", "null", "\"16\"", "[16]"];
    for (k, bytes) in files.iter().enumerate().filter(|(k, b)| b.len() <= big && *k < 6) {
        let mut tokens = vec![];
        let mut i = 0;
        while i < bytes.len() {
            let from = i;
            while i < bytes.len() && (bytes[i].is_ascii_digit() || bytes[i] == b'-') {
                i += 1;
            }
            if i > from {
                tokens.push((from, i));
            }
            i += 1;
        }
        if tokens.is_empty() {
            continue;
        }
        let what = |ix: &[usize]| format!("file of '{}' with byte {} {}", cs[k].0, ix[0], replacements.get(ix[1]).map_or("missing".into(), |b| format!("{:?}", *b as char)));
        damaged(run, &format!("bytes-{k}"), &cs[k].1, &[bytes.len(), replacements.len() + 1], &what, &|ix| {
            let mut b = bytes.clone();
            if ix[1] < replacements.len() {
                b[ix[0]] = replacements[ix[1]];
            } else {
                b.remove(ix[0]);
            }
            b
        });
        // a number too few, too many, or another one
        let what = |ix: &[usize]| {
            let edit = if ix[1] < numbers.len() { format!("replaced by '{}'", numbers[ix[1]]) } else { ["repeated", "missing"][ix[1] - numbers.len()].to_string() };
            format!("file of '{}' with number {} of {} {edit}", cs[k].0, ix[0], tokens.len())
        };
        damaged(run, &format!("numbers-{k}"), &cs[k].1, &[tokens.len(), numbers.len() + 2], &what, &|ix| {
            let (from, to) = tokens[ix[0]];
            let token = &bytes[from..to];
            let comma = bytes.get(to) == Some(&b',');
            match ix[1].checked_sub(numbers.len()) {
                None => [&bytes[..from], numbers[ix[1]].as_bytes(), &bytes[to..]].concat(),
                Some(0) => [&bytes[..to], b",", token, &bytes[to..]].concat(),
                Some(_) if comma => [&bytes[..from], &bytes[to + 1..]].concat(),
                Some(_) => [&bytes[..from - 1], &bytes[to..]].concat(),
            }
        });
    }
    // files of something else
    let texts = |n: usize| -> Vec<String> {
        let parts = ["null", "true", "0", "-1.5", "\"\"", "\"chunks\"", "[]", "{}", "chunks", "{\"chunks\":null}", "{\"chunks\":0}", "{\"chunks\":{}}", "{\"chunks\":\"\"}", "{\"chunks\":[0]}", "{\"chunks\":[null]}", "{\"chunks\":[[]]}", "{\"chunks\":[{}]}", "{\"events\":[]}", "{\"Chunks\":[]}", "{\"chunk\":[]}", "\u{0}", "\u{feff}", "PK\u{3}\u{4}", "<?xml version=\"1.0\"?>"];
        let mut v: Vec<String> = vec!["".into()];
        for _ in 0..n {
            let more: Vec<String> = v.iter().flat_map(|a| parts.iter().map(move |b| format!("{a}{b}"))).collect();
            v.extend(more);
            v.sort();
            v.dedup();
        }
        v.extend([" ", "\n", "\t \n"].map(String::from));
        v
    };
    let texts = texts(run.tier.pick(2, 3));
    run.lattice("foreign", &[texts.len(), 3], &|ix| format!("file of {:?}", texts[ix[0]]), &|ix| {
        let f = mine(s);
        let t = &texts[ix[0]];
        std::fs::write(f, match ix[1] { 0 => t.clone(), 1 => format!("{t}\n"), _ => format!("  {t}") }).expect("scratch file");
        ensure!(load(f)?.is_err(), "load accepts {t:?}");
        Ok("rejected")
    });
    // paths that cannot be written or read
    let dir = s.file("directory");
    std::fs::create_dir_all(dir).expect("scratch directory");
    let (below, missing) = (s.file("missing/file"), s.file("missing-file"));
    let paths = [("a directory", dir), ("a file in a missing directory", below), ("", "")];
    run.lattice("paths", &[paths.len(), cs.len()], &|ix| format!("'{}' to {}", cs[ix[1]].0, paths[ix[0]].0), &|ix| {
        let (m, w) = build(&cs[ix[1]].1)?;
        ensure!(save(&m, paths[ix[0]].1)?.is_err(), "save reports success");
        ensure!(load(paths[ix[0]].1)?.is_err(), "load reports success");
        ensure!(load(missing)?.is_err(), "load of a missing file reports success");
        probe_all(&cs[ix[1]].1).compare(&m, &w)?;
        Ok("refused")
    });
    // paths that can be written and read, in every order of two: nothing but the file named changes
    let long: &'static str = Box::leak("n".repeat(255).into_boxed_str());
    let names = ["map", "map.json", "map.JSON.bak", "./map2", "directory/map", "directory/../map3", "two words", "\u{e9}\u{30c4}", "-rf", ".map", "map.", "map.tmp", "map.part", "map~", "~map", "*", "%s", "#map#", long];
    run.serial(|run| {
        run.lattice("names", &[names.len(), names.len(), 2], &|ix| format!("'{}' to {}, then '{}' to {}", cs[0].0, names[ix[0]], cs[1].0, names[ix[1]]), &|ix| {
            // 0: the first map is saved first, 1: the file is there already with other contents
            if ix[2] == 1 {
                std::fs::write(names[ix[0]], vec![b'x'; 20000]).expect("scratch file");
            }
            let (a, wa) = build(&cs[0].1)?;
            let (b, wb) = build(&cs[1].1)?;
            ensure!(save(&a, names[ix[0]])?.is_ok(), "save to {} fails", names[ix[0]]);
            ensure!(save(&b, names[ix[1]])?.is_ok(), "save to {} fails", names[ix[1]]);
            let same = ix[0] == ix[1];
            for (name, ops, want) in [(names[ix[1]], &cs[1].1, &wb), (names[ix[0]], if same { &cs[1].1 } else { &cs[0].1 }, if same { &wb } else { &wa })] {
                match load(name)? {
                    Ok(m) => probe_all(ops).compare(&m, want)?,
                    Err(e) => return Err(format!("{name} does not load: {e}")),
                }
            }
            // other names hold nothing
            for n in names {
                if n != names[ix[0]] && n != names[ix[1]] {
                    ensure!(std::fs::symlink_metadata(n).is_err(), "there is now a file {n}");
                }
            }
            for i in [0, 1] {
                let _ = std::fs::remove_file(names[ix[i]]);
            }
            Ok("read back")
        });
    });
    // maps from one chunk to megabytes
    let between = |per: usize| (0..2 * per).map(move |i| 10f64.powf(1.65 + i as f64 / per as f64) as usize);
    let sizes: Vec<usize> = (1..=40).chain(between(run.tier.pick(10, 40))).chain(run.tier.pick(vec![100, 300, 1000, 2000, 4000], vec![100, 200, 300, 400, 600, 800, 1000, 1500, 2000, 3000, 4000, 8000, 20_000])).collect();
    run.lattice("sizes", &[sizes.len(), 5], &|ix| format!("{} chunks with {} tiles", sizes[ix[0]], ["few", "many", "few or no", "in a row: few", "in a column: few"][ix[1]]), &|ix| {
        let per = if ix[1] == 1 { 37 } else { 1 };
        let side = match ix[1] {
            3 => sizes[ix[0]] as i32,
            4 => 1,
            _ => (sizes[ix[0]] as f64).sqrt() as i32 + 1,
        };
        let above = if ix[1] == 4 { sizes[ix[0]] as i32 / 2 } else { 3 };
        let ops: Vec<Op> = (0..sizes[ix[0]] as i32)
            .flat_map(|c| {
                let (x, y) = (c % side - side / 2, c / side - above);
                (0..per).map(move |k| {
                    let index = if ix[1] == 2 && c % 3 == 1 { 0 } else { ((c + k) % 255 + 1) as u8 };
                    Op::Set((x * 16 + k % 16, y * 16 + k * 5 % 16), index)
                })
            })
            .collect();
        let (m, w) = build(&ops)?;
        let f = mine(s);
        ensure!(save(&m, f)?.is_ok(), "save fails");
        let l = load(f)?.map_err(|e| format!("load of what was saved failed: {e}"))?;
        for op in &ops {
            let Op::Set(p, _) = *op else { continue };
            let t = lib("get_tile", || l.get_tile(crate::map::v(p)))?;
            ensure!(t == w.get(p), "loaded: get_tile({p:?}) is {t} instead of {}", w.get(p));
        }
        for c in w.chunks.keys().flat_map(|c| [*c, (c.0 + 1, c.1), (c.0 - 1, c.1), (c.0, c.1 + 1), (c.0, c.1 - 1)]) {
            let got = lib("get_chunk", || l.get_chunk(&crate::map::v(c)).map(|c| c.array2d.data.iter().filter(|t| **t != 0).count()))?;
            let want = w.chunks.get(&c).map(|t| t.len());
            ensure!(got == want, "loaded: chunk {c:?} has {got:?} tiles instead of {want:?}");
        }
        Ok("read back")
    });
    // a save that fails at every byte of the file
    let old = b"x".to_vec();
    run.serial(|run| {
        let mut limits = [0u64; 2];
        unsafe {
            getrlimit(RLIMIT_FSIZE, &mut limits);
            signal(SIGXFSZ, 1);
        }
        for (k, bytes) in files.iter().enumerate().filter(|(k, b)| b.len() <= big || *k == 8) {
            // a large file: around every block of the writer's buffer, and every byte at both ends
            let at: Vec<usize> = (0..=bytes.len())
                .filter(|i| bytes.len() <= big || *i < 40 || i + 40 > bytes.len() || (i % 4096) < 3 || (i % 4096) > 4093)
                .collect();
            run.lattice(
                &format!("failing-{k}"),
                &[at.len(), 2],
                &|ix| format!("save of '{}' ({} bytes) {} fails after {} bytes", cs[k].0, bytes.len(), ["over nothing", "over another file"][ix[1]], at[ix[0]]),
                &|ix| {
                    let f = mine(s);
                    let _ = std::fs::remove_file(f);
                    if ix[1] == 1 {
                        std::fs::write(f, &old).expect("scratch file");
                    }
                    let (m, w) = build(&cs[k].1)?;
                    let hard = limits[1];
                    unsafe { setrlimit(RLIMIT_FSIZE, &[at[ix[0]] as u64, hard]) };
                    let r = save(&m, f);
                    unsafe { setrlimit(RLIMIT_FSIZE, &limits) };
                    match r? {
                        Ok(()) => {
                            let l = load(f)?;
                            ensure!(l.is_ok(), "save reports success, but what it wrote cannot be loaded");
                            if let Ok(l) = l {
                                probe_all(&cs[k].1).compare(&l, &w)?;
                            }
                            Ok("saved")
                        }
                        Err(e) => {
                            // the order of the chunks, and with it the text, may differ, but not its length
                            ensure!(at[ix[0]] < bytes.len(), "save failed, although there was room: {e}");
                            ensure!(load(f)?.is_err(), "a partly written file can be loaded");
                            Ok("failed")
                        }
                    }
                },
            );
        }
    });
}
