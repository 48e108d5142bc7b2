//! C27: logging observes and nothing else.
//!
//! This program is built twice: plainly, and with the `logging` feature of the crate. The second build runs the whole
//! domain at every log level, with a logger that formats each record, and compares with the answers of the first.
use crate::scene::*;
use auburn::col2d::*;
use mckit::{lib, Tier};

/// One answer: what kind it is, and its numbers.
#[derive(Clone, Copy, Debug, PartialEq)]
pub struct Item(pub u8, pub f32, pub f32);
const NAMES: [&str; 11] = ["false", "true", "none", "vector", "apart by", "overlapping by", "number", "point", "", "a panic", "whole number"];

fn plus0(x: f32) -> f32 {
    // which zero a minimum or maximum of zeros yields is up to the compiler
    if x.is_nan() { f32::NAN } else { x + 0.0 }
}
fn item(tag: u8, v: Vec2) -> Item {
    Item(tag, plus0(v.x), plus0(v.y))
}
fn of(a: Result<Ans, String>) -> Item {
    match a {
        Ok(Ans::Flag(b)) => item(b as u8, Vec2::ZERO),
        Ok(Ans::Maybe(None)) => item(2, Vec2::ZERO),
        Ok(Ans::Maybe(Some(v))) => item(3, v),
        Ok(Ans::Both(b, v)) => item(4 + b as u8, v),
        Ok(Ans::Num(x)) => item(6, Vec2::new(x, 0.0)),
        Err(_) => item(9, Vec2::ZERO),
    }
}
fn show(x: &Item) -> String {
    if x.0 == 10 {
        return format!("{}", x.1.to_bits() as u64 as i64 | (x.2.to_bits() as i64) << 32);
    }
    format!("{} ({}, {})", NAMES[x.0 as usize], x.1, x.2)
}
fn point(r: Result<Vec2, String>) -> Item {
    match r {
        Ok(v) => item(7, v),
        Err(_) => item(9, Vec2::ZERO),
    }
}
fn digest(v: &[Item]) -> u64 {
    let mut h = 0xcbf29ce484222325u64;
    for x in v {
        for w in [x.0 as u32, x.1.to_bits(), x.2.to_bits()] {
            h = (h ^ w as u64).wrapping_mul(0x100000001b3).rotate_left(17);
        }
    }
    h
}

pub struct Domain {
    pub name: &'static str,
    pub dims: Vec<usize>,
    pub desc: Box<dyn Fn(&[usize]) -> String + Sync>,
    /// the answers in a state and the scale they are measured on
    pub answers: Box<dyn Fn(&[usize]) -> (Vec<Item>, f32) + Sync>,
}

fn op_items<T: Rep>(sa: &Spot, sb: &Spot, p: Vec2) -> Vec<Item> {
    let r = lib("transforms", || {
        let (a, b) = (T::make(sa), T::make(sb));
        let mut v = vec![];
        for t in [a.compose(&b), a.inverse(), a.delta_transform(&b), b.inverse().compose(&a).inverse()] {
            v.extend([t.apply_origin(), t.apply(p), t.unapply(p), t.apply_normal(p), t.unapply_normal(p)]);
            v.push(Vec2::splat(t.scaling_factor()));
        }
        v
    });
    match r {
        Ok(v) => v.into_iter().map(|v| item(7, v)).collect(),
        Err(_) => vec![item(9, Vec2::ZERO)],
    }
}

fn domains(tier: Tier) -> Vec<Domain> {
    let thorough = tier == Tier::Thorough;
    let mut out = vec![];
    // queries: every pair, in touching, overlapping and separated placements
    let mut pairs: Vec<Box<dyn Pair>> = catalogue().iter().map(|(x, y)| pair(x, y).unwrap()).collect();
    let odd = [
        Spec::poly("origin", &[[0.0, 0.0]]),
        Spec::poly("segment", &[[-1.0, 0.0], [1.0, 0.0]]),
        Spec::poly("equal", &[[0.0, 0.0], [0.0, 0.0], [0.0, 0.0]]),
        Spec::Boxy(0.0, 0.0),
        Spec::Boxy(1.0, 0.0),
        Spec::Boxy(1.0, 1.0),
        Spec::Disc(0.0),
    ];
    for x in &odd {
        for y in &odd {
            pairs.extend(pair(x, y));
        }
    }
    let rots: Vec<f32> = if thorough { vec![0.0, 0.3, 0.7853982, 1.5707964, 2.0, -2.5, 3.1415927, 5.0] } else { vec![0.0, 0.3, 1.5707964, -2.5] };
    let steps: Vec<f32> = if thorough {
        vec![-2.5, -1.5, -1.0, -0.5, -0.1, 0.0, 0.2, 0.5, 0.8, 1.0, 1.7, 2.0, 3.0, 40.0]
    } else {
        vec![-1.5, -0.4, 0.0, 0.5, 1.0, 2.0, 40.0]
    };
    let home = Spot { a: 0.6, k: 1.5, p: [3.0, -2.0] };
    // 0: relative; then world forms; then the transform types without rotation
    let how = move |form: usize, b: Spot| -> (Kind, How) {
        let flat = Spot { a: 0.0, ..b };
        match form {
            0 => (Kind::Full, How::Rel(b)),
            1 => (Kind::Full, How::World(0, home, Spot { k: 1.5, p: [b.p[0] + 3.0, b.p[1] - 2.0], ..b })),
            2 => (Kind::Full, How::World(1, Spot::HOME, b)),
            3 => (Kind::Axis, How::World(2, Spot { a: 0.0, ..home }, Spot { k: 0.5, p: [b.p[0] + 3.0, b.p[1] - 2.0], ..flat })),
            4 => (Kind::Translate, How::World(0, Spot::HOME, flat)),
            _ => (Kind::Vector, How::Rel(flat)),
        }
    };
    let dims = vec![pairs.len(), 6, rots.len(), steps.len(), steps.len()];
    let pairs = std::sync::Arc::new(pairs);
    // where the shapes are as large as the steps are wide
    let at = {
        let pairs = pairs.clone();
        move |ix: &[usize]| {
            let s = pairs[ix[0]].size() as f32 * 0.25;
            let s = if s > 0.0 { s } else { 1.0 };
            how(ix[1], Spot { a: rots[ix[2]], k: 1.0, p: [s * steps[ix[3]], s * steps[ix[4]]] })
        }
    };
    let (p2, a2) = (pairs.clone(), at.clone());
    out.push(Domain {
        name: "queries",
        dims,
        desc: Box::new(move |ix| format!("{} {:?}", p2[ix[0]].name(), a2(ix))),
        answers: Box::new(move |ix| {
            let (kind, how) = at(ix);
            let p = &pairs[ix[0]];
            let mut v = vec![];
            for q in [Q::Coll, Q::Pen, Q::Dist, Q::Sdfv, Q::Sdf] {
                if q != Q::Sdf || p.has_sdf() {
                    v.push(of(p.ask(kind, &how, q)));
                }
            }
            (v, p.size() as f32 * 1.5)
        }),
    });
    // support points
    let solos: std::sync::Arc<Vec<Box<dyn Solo>>> = std::sync::Arc::new(solos().iter().map(solo).collect());
    let nd = tier.pick(32, 256);
    let spots = [home, Spot { a: -2.0, k: 0.25, p: [-100.0, 7.0] }, Spot { a: 0.0, k: 2.0, p: [1.0, 1.0] }, Spot::HOME];
    let way = move |i: usize| {
        let t = std::f64::consts::TAU * i as f64 / nd as f64;
        Vec2::new(t.cos() as f32, t.sin() as f32)
    };
    let s2 = solos.clone();
    out.push(Domain {
        name: "support",
        dims: vec![solos.len(), spots.len(), nd],
        desc: Box::new(move |ix| format!("{} at {:?} towards {:?}", s2[ix[0]].name(), spots[ix[1]], way(ix[2]))),
        answers: Box::new(move |ix| {
            let (s, t, d) = (&solos[ix[0]], &spots[ix[1]], way(ix[2]));
            let mut v = vec![point(s.extreme(d))];
            for kind in KINDS.into_iter().filter(|k| k.can(t)) {
                let r = s.extreme_t(kind, t, d);
                v.push(point(r.clone().map(|r| r[0])));
                v.push(point(r.map(|r| r[1])));
            }
            (v, 200.0)
        }),
    });
    // transforms
    let spot = |i: usize| {
        let a = [0.0f32, 0.5, 1.5707964, -2.0, 3.1415927, 9.0][i % 6];
        let k = [1.0f32, 0.25, 3.0][i / 6 % 3];
        let p = [[0.0f32, 0.0], [1.0, -2.0], [-300.0, 0.01]][i / 18 % 3];
        Spot { a, k, p }
    };
    let pts = [Vec2::ZERO, Vec2::new(1.0, 0.0), Vec2::new(-3.0, 2.5)];
    out.push(Domain {
        name: "transforms",
        dims: vec![KINDS.len(), 54, 54, pts.len()],
        desc: Box::new(move |ix| format!("{:?} {:?} and {:?} on {:?}", KINDS[ix[0]], spot(ix[1]), spot(ix[2]), pts[ix[3]])),
        answers: Box::new(move |ix| {
            let (a, b, p) = (spot(ix[1]), spot(ix[2]), pts[ix[3]]);
            let kind = KINDS[ix[0]];
            let v = if !kind.can(&a) || !kind.can(&b) {
                vec![]
            } else {
                match kind {
                    Kind::Full => op_items::<Transform2d>(&a, &b, p),
                    Kind::Axis => op_items::<AxisTransform2d>(&a, &b, p),
                    Kind::Translate => op_items::<Translate2d>(&a, &b, p),
                    Kind::Vector => op_items::<Vec2>(&a, &b, p),
                }
            };
            (v, 1000.0)
        }),
    });
    out.extend(crate::others::domains(tier));
    out
}

fn unrank(mut i: usize, dims: &[usize]) -> Vec<usize> {
    let mut ix = vec![0; dims.len()];
    for k in (0..dims.len()).rev() {
        ix[k] = i % dims[k];
        i /= dims[k];
    }
    ix
}
fn tier(s: &str) -> Tier {
    if s == "thorough" { Tier::Thorough } else { Tier::Quick }
}

/// `answers <tier> <domain> <file>`: a digest of the answers of this build in every state.
/// `answer <tier> <domain> <state>`: the answers in one state.
pub fn answers(args: &[String]) {
    use std::sync::atomic::{AtomicU64, AtomicUsize, Ordering::Relaxed};
    std::panic::set_hook(Box::new(|_| {}));
    let d = domains(tier(&args[1])).into_iter().find(|d| d.name == args[2]).expect("domain");
    let total: usize = d.dims.iter().product();
    if args[0] == "answer" {
        for Item(t, x, y) in (d.answers)(&unrank(args[3].parse().unwrap(), &d.dims)).0 {
            println!("{t} {} {}", x.to_bits(), y.to_bits());
        }
        return;
    }
    let sums: Vec<AtomicU64> = (0..total).map(|_| AtomicU64::new(0)).collect();
    let next = AtomicUsize::new(0);
    std::thread::scope(|s| {
        for _ in 0..std::thread::available_parallelism().map_or(4, |n| n.get()) {
            let (sums, next, d) = (&sums, &next, &d);
            std::thread::Builder::new()
                .stack_size(16 << 20)
                .spawn_scoped(s, move || loop {
                    let from = next.fetch_add(256, Relaxed);
                    if from >= total {
                        break;
                    }
                    for i in from..(from + 256).min(total) {
                        sums[i].store(digest(&(d.answers)(&unrank(i, &d.dims)).0), Relaxed);
                    }
                })
                .unwrap();
        }
    });
    let bytes: Vec<u8> = sums.iter().flat_map(|x| x.load(Relaxed).to_le_bytes()).collect();
    std::fs::write(&args[3], bytes).expect("write");
}

#[cfg(not(feature = "logging"))]
pub fn c27(_: &mut mckit::Run) {
    eprintln!("ENGINE ERROR: C27 runs in the build with the logging feature");
    std::process::exit(2)
}

#[cfg(feature = "logging")]
pub use on::c27;

#[cfg(feature = "logging")]
mod on {
    use super::*;
    use log::LevelFilter;
    use mckit::{Run, Verdict};
    use std::fmt::Write;
    use std::process::Command;

    /// Formats every record, and forgets it.
    struct Sink;
    struct Count(usize);
    impl Write for Count {
        fn write_str(&mut self, s: &str) -> std::fmt::Result {
            self.0 += s.len();
            Ok(())
        }
    }
    impl log::Log for Sink {
        fn enabled(&self, _: &log::Metadata) -> bool {
            true
        }
        fn log(&self, r: &log::Record) {
            let mut c = Count(0);
            write!(c, "{}", r.args()).unwrap();
            std::hint::black_box(c.0);
        }
        fn flush(&self) {}
    }

    fn fail(s: &str) -> ! {
        eprintln!("ENGINE ERROR: {s}");
        std::process::exit(2)
    }

    /// None if the answers are the same for every purpose.
    fn differ(plain: &[Item], logged: &[Item], size: f32, exact: bool) -> Option<String> {
        if plain.len() != logged.len() {
            return Some("another number of answers".into());
        }
        for (n, (a, b)) in plain.iter().zip(logged).enumerate() {
            let l = |x: &Item| (x.1 as f64).hypot(x.2 as f64);
            // two builds may round differently
            let tol = if exact { 0.0 } else { 1e-3 * size as f64 };
            let same = if (a.0, a.1.to_bits(), a.2.to_bits()) == (b.0, b.1.to_bits(), b.2.to_bits()) {
                true
            } else if exact || a.0 >= 9 || b.0 >= 9 {
                false
            } else if a.0 == b.0 {
                match a.0 {
                    6 | 7 => ((a.1 - b.1) as f64).hypot((a.2 - b.2) as f64) <= tol,
                    _ => (l(a) - l(b)).abs() <= tol,
                }
            } else {
                // in contact
                let depth = plain.iter().chain(logged).filter(|x| (3..6).contains(&x.0)).map(l).fold(0.0, f64::max);
                depth <= tol
            };
            if !same {
                return Some(format!("answer {n} is {}, and {}", show(a), show(b)));
            }
        }
        None
    }

    pub fn c27(run: &mut Run) {
        run.stdout_must_be_silent = true;
        run.assume("the logger formats each record and returns; it does not call into the crate");
        let plain = std::env::var("MC_PLAIN").unwrap_or_else(|_| fail("MC_PLAIN is not set"));
        let verif = std::env::var("VERIF_DIR").unwrap_or_else(|_| "/verif".into());
        let t = run.tier.pick("quick", "thorough");
        log::set_logger(&Sink).unwrap_or_else(|e| fail(&e.to_string()));
        for d in domains(run.tier) {
            let f = format!("{verif}/evidence/.answers-{}", std::process::id());
            log::set_max_level(LevelFilter::Off);
            let ok = run.replaying() || Command::new(&plain).args(["answers", t, d.name, &f]).status().is_ok_and(|s| s.success());
            if !ok {
                fail("the plain build gives no answers");
            }
            let want: Vec<u64> = if run.replaying() {
                vec![]
            } else {
                std::fs::read(&f)
                    .unwrap_or_else(|e| fail(&e.to_string()))
                    .chunks(8)
                    .map(|c| u64::from_le_bytes(c.try_into().unwrap()))
                    .collect()
            };
            let _ = std::fs::remove_file(&f);
            let rank = |ix: &[usize]| ix.iter().zip(&d.dims).fold(0, |r, (i, n)| r * n + i);
            let quiet: Vec<std::sync::atomic::AtomicU64> = want.iter().map(|_| 0.into()).collect();
            let judge = |ix: &[usize], level: LevelFilter| -> Verdict {
                use std::sync::atomic::Ordering::Relaxed;
                let (got, size) = (d.answers)(ix);
                let (i, h) = (rank(ix), digest(&got));
                mckit::cmp();
                if let Some(w) = want.get(i) {
                    if level == LevelFilter::Off {
                        quiet[i].store(h, Relaxed);
                    }
                    if *w == h {
                        return Ok("same");
                    }
                    // the same as with the logger off, which has been judged
                    if level != LevelFilter::Off && quiet[i].load(Relaxed) == h {
                        return Ok("as when off");
                    }
                }
                let o = Command::new(&plain).args(["answer", t, d.name, &i.to_string()]).output().unwrap_or_else(|e| fail(&e.to_string()));
                let base: Vec<Item> = String::from_utf8_lossy(&o.stdout)
                    .lines()
                    .map(|l| {
                        let n: Vec<u32> = l.split(' ').map(|x| x.parse().unwrap_or_else(|_| fail("answer"))).collect();
                        Item(n[0] as u8, f32::from_bits(n[1]), f32::from_bits(n[2]))
                    })
                    .collect();
                if let Some(e) = differ(&base, &got, size, false) {
                    mckit::ensure!(false, "without the feature and with it (level {level}): {e}");
                }
                Ok("rounded differently")
            };
            for level in [LevelFilter::Off, LevelFilter::Error, LevelFilter::Warn, LevelFilter::Info, LevelFilter::Debug, LevelFilter::Trace] {
                log::set_max_level(level);
                run.lattice(&format!("{} at {level}", d.name), &d.dims, &|ix| (d.desc)(ix), &|ix| judge(ix, level));
            }
            log::set_max_level(LevelFilter::Off);
        }
    }
}
