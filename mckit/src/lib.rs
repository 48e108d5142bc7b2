//! Small explicit-state explorer used by every check in /verif.
//!
//! * `Run::lattice` enumerates *every* state of a finite product space and executes the real code
//!   in each one; transitions (unit moves along a coordinate) can carry an edge invariant.
//! * `Run::histories` enumerates *every* operation sequence up to a depth (breadth first, shortest
//!   counterexample first) and merges histories that reach the same canonical state.
//!
//! A run happens in a child process whose stdout is captured by the parent, so that the code under
//! test cannot mix its output with ours (and so that output is observable: see `Run::stdout_bytes`).
pub mod geo;
pub mod json;

use std::collections::{BTreeMap, HashMap, HashSet};
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::sync::atomic::{AtomicBool, AtomicU64, AtomicUsize, Ordering::*};
use std::sync::Mutex;
use std::time::Instant;

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Tier {
    Quick,
    Thorough,
}

impl Tier {
    pub fn pick<T>(self, quick: T, thorough: T) -> T {
        match self {
            Tier::Quick => quick,
            Tier::Thorough => thorough,
        }
    }
}

/// Result of evaluating one state: a label of the observed outcome, or what is wrong.
pub type Verdict = Result<&'static str, String>;

thread_local! {
    static CMP: std::cell::Cell<u64> = const { std::cell::Cell::new(0) };
    static CALLS: std::cell::Cell<u64> = const { std::cell::Cell::new(0) };
    static IN_LIB: std::cell::Cell<bool> = const { std::cell::Cell::new(false) };
}

/// A value of its own for each worker thread, for types that need not be shareable between threads.
pub struct PerThread<T: 'static> {
    id: usize,
    make: Box<dyn Fn() -> T + Send + Sync>,
}

impl<T: 'static> PerThread<T> {
    pub fn new(make: impl Fn() -> T + Send + Sync + 'static) -> Self {
        static NEXT: AtomicU64 = AtomicU64::new(0);
        PerThread { id: NEXT.fetch_add(1, SeqCst) as usize, make: Box::new(make) }
    }
    pub fn get(&self) -> std::rc::Rc<T> {
        thread_local! {
            static MINE: std::cell::RefCell<std::collections::HashMap<usize, std::rc::Rc<dyn std::any::Any>>> = Default::default();
        }
        if let Some(x) = MINE.with(|m| m.borrow().get(&self.id).cloned()) {
            return x.downcast().expect("one type for each id");
        }
        let x = std::rc::Rc::new((self.make)());
        MINE.with(|m| m.borrow_mut().insert(self.id, x.clone()));
        x
    }
}

/// Count one comparison of an implementation result with the reference model.
#[inline]
pub fn cmp() {
    CMP.with(|c| c.set(c.get() + 1));
}

/// `n` comparisons at once.
pub fn cmps(n: u64) {
    CMP.with(|c| c.set(c.get() + n));
}

/// Call into the code under test. A panic there is a finding, a panic anywhere else is our error.
#[inline]
pub fn lib<R>(what: &str, f: impl FnOnce() -> R) -> Result<R, String> {
    CALLS.with(|c| c.set(c.get() + 1));
    let old = IN_LIB.with(|x| x.replace(true));
    let r = catch_unwind(AssertUnwindSafe(f));
    IN_LIB.with(|x| x.set(old));
    r.map_err(|e| format!("{what} panicked: {}", panic_msg(&*e)))
}

thread_local! {
    static PANIC_IN_REPO: std::cell::Cell<bool> = const { std::cell::Cell::new(false) };
}

/// Judge one state. A panic raised by the code under test outside of `lib` is a finding, too.
fn guarded<R>(f: impl FnOnce() -> Result<R, String>) -> Result<R, String> {
    match catch_unwind(AssertUnwindSafe(f)) {
        Ok(r) => r,
        Err(e) if PANIC_IN_REPO.with(|x| x.get()) => Err(format!("panicked: {}", panic_msg(&*e))),
        Err(e) => std::panic::resume_unwind(e),
    }
}

fn panic_msg(e: &(dyn std::any::Any + Send)) -> String {
    if let Some(s) = e.downcast_ref::<&str>() {
        s.to_string()
    } else if let Some(s) = e.downcast_ref::<String>() {
        s.clone()
    } else {
        "?".to_string()
    }
}

#[macro_export]
macro_rules! ensure {
    ($c:expr, $($arg:tt)*) => {{ $crate::cmp(); if !($c) { return Err(format!($($arg)*)); } }};
}

#[derive(Clone)]
pub struct Violation {
    pub domain: String,
    pub state: Vec<i64>,
    pub what: String,
    pub text: String,
}

#[derive(Default)]
struct Stat {
    name: String,
    states: u64,
    transitions: u64,
    validated: u64,
    bound: String,
    outcomes: BTreeMap<&'static str, u64>,
}

pub struct Run {
    pub prop: String,
    pub tier: Tier,
    replay: Option<(String, Vec<i64>)>,
    stats: Vec<Stat>,
    samples: Vec<String>,
    assumptions: Vec<String>,
    violations: Vec<Violation>,
    /// Bytes the code under test wrote to stdout (known to the parent only).
    pub stdout_must_be_silent: bool,
    start: Instant,
    threads: usize,
}

const MAX_PER_DOMAIN: usize = 3;

fn unrank(mut i: u64, dims: &[usize], out: &mut [usize]) {
    for k in (0..dims.len()).rev() {
        out[k] = (i % dims[k] as u64) as usize;
        i /= dims[k] as u64;
    }
}

impl Run {
    pub fn assume(&mut self, s: &str) {
        self.assumptions.push(s.to_string());
    }

    /// Run what follows on one thread (for checks that change settings of the whole process).
    pub fn serial(&mut self, f: impl FnOnce(&mut Run)) {
        let n = std::mem::replace(&mut self.threads, 1);
        f(self);
        self.threads = n;
    }

    pub fn replaying(&self) -> bool {
        self.replay.is_some()
    }

    pub fn quick(&self) -> bool {
        self.tier == Tier::Quick
    }

    /// Enumerate every state of the product space `dims`; `check` runs the real code there.
    pub fn lattice(
        &mut self,
        name: &str,
        dims: &[usize],
        desc: &(dyn Fn(&[usize]) -> String + Sync),
        check: &(dyn Fn(&[usize]) -> Verdict + Sync),
    ) {
        self.lattice_edges(name, dims, &[], desc, &|ix| check(ix).map(|l| (l, 0.0)), &|_, _, _, _| Ok(()))
    }

    /// Every f32 of magnitude `lo` to `hi`, of both signs; or every `skip`th of them. A state is a run of 4096 of them.
    pub fn floats(&mut self, name: &str, lo: f32, hi: f32, skip: u32, check: &(dyn Fn(f32) -> Result<(), String> + Sync)) {
        let (from, to) = (lo.to_bits() as u64, hi.to_bits() as u64);
        let rows = (to - from) / 4096 + 1;
        let bits = |ix: &[usize], i: u64| (from + ix[0] as u64 * 4096 + i * skip as u64 + ix[0] as u64 % skip as u64).min(to);
        let at = |ix: &[usize], i: u64| f32::from_bits(bits(ix, i) as u32 | (ix[1] as u32) << 31);
        let run = |ix: &[usize]| {
            let n = 4096 / skip as u64;
            cmps(n);
            for i in 0..n {
                let x = at(ix, i);
                check(x).map_err(|e| format!("{x:e}: {e}"))?;
            }
            Ok("run")
        };
        self.lattice(name, &[rows as usize, 2], &|ix| format!("numbers from {:e} on, every {skip}th", at(ix, 0)), &run);
    }

    /// As `lattice`; additionally `edge(state, dim, a, b)` judges every transition that increments
    /// one of the coordinates `moves`, given what was observed in its two end states.
    pub fn lattice_edges(
        &mut self,
        name: &str,
        dims: &[usize],
        moves: &[usize],
        desc: &(dyn Fn(&[usize]) -> String + Sync),
        check: &(dyn Fn(&[usize]) -> Result<(&'static str, f64), String> + Sync),
        edge: &(dyn Fn(&[usize], usize, f64, f64) -> Result<(), String> + Sync),
    ) {
        let total: u64 = dims.iter().map(|&d| d as u64).product();
        if total == 0 {
            engine_error(&format!("domain {name} is empty"));
        }
        if let Some((d, st)) = &self.replay {
            if d == name {
                let ix: Vec<usize> = st.iter().map(|&x| x as usize).collect();
                if ix.len() != dims.len() || ix.iter().zip(dims).any(|(i, d)| i >= d) {
                    engine_error("replayed state is outside of the domain");
                }
                let r = guarded(|| check(&ix));
                println_err(&format!("replay {name} {}: {:?}", desc(&ix), r));
                if let Err(e) = r {
                    let v = Violation { domain: name.into(), state: st.clone(), what: e, text: desc(&ix) };
                    self.violations.push(v);
                } else if let Ok((_, a)) = r {
                    for &k in moves {
                        if ix[k] + 1 < dims[k] {
                            let mut j = ix.clone();
                            j[k] += 1;
                            if let Ok((_, b)) = check(&j) {
                                if let Err(e) = edge(&ix, k, a, b) {
                                    self.violations.push(Violation { domain: name.into(), state: st.clone(), what: e, text: desc(&ix) });
                                }
                            }
                        }
                    }
                }
            }
            return;
        }
        let keep = !moves.is_empty();
        let obs: Vec<AtomicU64> = if keep { (0..total).map(|_| AtomicU64::new(f64::NAN.to_bits())).collect() } else { vec![] };
        let next = AtomicU64::new(0);
        let found: Mutex<Vec<(u64, String)>> = Mutex::new(vec![]);
        let stop_after = AtomicU64::new(u64::MAX);
        let block = (total / (self.threads as u64 * 64)).clamp(1, 4096);
        let (validated, states, calls) = (AtomicU64::new(0), AtomicU64::new(0), AtomicU64::new(0));
        let outcomes: Mutex<BTreeMap<&'static str, u64>> = Mutex::new(BTreeMap::new());
        let watch = Watch::new(self.threads);
        let (prop, dname) = (self.prop.clone(), name.to_string());
        let nthreads = self.threads;
        let scan = |second: bool| {
            next.store(0, SeqCst);
            watch.done.store(false, SeqCst);
            std::thread::scope(|s| {
                let mut hs = vec![];
                for t in 0..nthreads {
                    let (next, found, stop_after, watch, obs, validated, states, calls, outcomes) =
                        (&next, &found, &stop_after, &watch, &obs, &validated, &states, &calls, &outcomes);
                    hs.push(std::thread::Builder::new().stack_size(16 << 20).spawn_scoped(s, move || {
                        CMP.with(|c| c.set(0));
                        CALLS.with(|c| c.set(0));
                        let mut ix = vec![0usize; dims.len()];
                        let mut local: HashMap<&'static str, u64> = HashMap::new();
                        let mut n = 0u64;
                        loop {
                            let from = next.fetch_add(block, SeqCst);
                            if from >= total || from > stop_after.load(SeqCst) {
                                break;
                            }
                            for i in from..(from + block).min(total) {
                                unrank(i, dims, &mut ix);
                                watch.beat(t, i);
                                let mut bad = None;
                                if !second {
                                    n += 1;
                                    match guarded(|| check(&ix)) {
                                        Ok((l, o)) => {
                                            *local.entry(l).or_default() += 1;
                                            if keep {
                                                obs[i as usize].store(o.to_bits(), Relaxed);
                                            }
                                        }
                                        Err(e) => bad = Some(e),
                                    }
                                } else {
                                    let a = f64::from_bits(obs[i as usize].load(Relaxed));
                                    let mut stride = 1u64;
                                    for k in (0..dims.len()).rev() {
                                        if moves.contains(&k) && ix[k] + 1 < dims[k] {
                                            let b = f64::from_bits(obs[(i + stride) as usize].load(Relaxed));
                                            if !a.is_nan() && !b.is_nan() {
                                                n += 1;
                                                if let Err(e) = edge(&ix, k, a, b) {
                                                    bad = Some(e);
                                                }
                                            }
                                        }
                                        stride *= dims[k] as u64;
                                    }
                                }
                                if let Some(e) = bad {
                                    let mut f = found.lock().unwrap();
                                    f.push((i, e));
                                    if f.len() >= 64 {
                                        stop_after.fetch_min(f.iter().map(|x| x.0).max().unwrap(), SeqCst);
                                    }
                                }
                            }
                        }
                        watch.idle(t);
                        if second {
                            validated.fetch_add(n, SeqCst);
                        } else {
                            states.fetch_add(n, SeqCst);
                            calls.fetch_add(CALLS.with(|c| c.get()), SeqCst);
                            validated.fetch_add(CMP.with(|c| c.get()), SeqCst);
                        }
                        let mut o = outcomes.lock().unwrap();
                        for (k, v) in local {
                            *o.entry(k).or_default() += v;
                        }
                    }).expect("thread"));
                }
                let w = &watch;
                let (prop, dname) = (&prop, &dname);
                s.spawn(move || {
                    w.watch(&|i| {
                        let mut ix = vec![0usize; dims.len()];
                        unrank(i, dims, &mut ix);
                        let v = Violation {
                            domain: dname.clone(),
                            state: ix.iter().map(|&x| x as i64).collect(),
                            what: "the code under test does not return (no answer within 30 s)".into(),
                            text: desc(&ix),
                        };
                        emergency(prop, v);
                    })
                });
                for h in hs {
                    if h.join().is_err() {
                        engine_error("a worker panicked outside of the code under test");
                    }
                }
                watch.done.store(true, SeqCst);
            });
        };
        scan(false);
        let st_validated = validated.swap(0, SeqCst);
        let mut transitions = 0;
        if keep && found.lock().unwrap().is_empty() {
            scan(true);
            transitions = validated.load(SeqCst);
        }
        let mut f = found.into_inner().unwrap();
        f.sort();
        let mut ix = vec![0usize; dims.len()];
        let mut seen_msgs = HashSet::new();
        for (i, e) in f {
            // one counterexample for each kind of message
            let kind: String = e.chars().filter(|c| c.is_alphabetic()).take(24).collect();
            if seen_msgs.len() < MAX_PER_DOMAIN && seen_msgs.insert(kind) {
                unrank(i, dims, &mut ix);
                self.violations.push(Violation {
                    domain: name.to_string(),
                    state: ix.iter().map(|&x| x as i64).collect(),
                    what: e,
                    text: desc(&ix),
                });
            }
        }
        for i in [0, total / 3, total.saturating_sub(1)] {
            unrank(i, dims, &mut ix);
            if self.samples.len() < 40 {
                self.samples.push(format!("{name}: {}", desc(&ix)));
            }
        }
        self.stats.push(Stat {
            name: name.to_string(),
            states: states.load(SeqCst),
            transitions: calls.load(SeqCst) + transitions,
            validated: st_validated,
            bound: format!("all states of the product space {dims:?}"),
            outcomes: outcomes.into_inner().unwrap(),
        });
    }

    /// Enumerate every operation sequence of length <= depth over `ops` operations, breadth first.
    ///
    /// `exec(history)` executes the whole history on a fresh real object next to its reference
    /// model, judges every step, and returns the canonical state reached (or None to prune).
    /// Histories that reach an already visited canonical state are not extended.
    pub fn histories(
        &mut self,
        name: &str,
        ops: usize,
        depth: usize,
        desc: &(dyn Fn(&[usize]) -> String + Sync),
        exec: &(dyn Fn(&[usize]) -> Result<Option<Vec<u8>>, String> + Sync),
    ) {
        if let Some((d, st)) = &self.replay {
            if d == name {
                let h: Vec<usize> = st.iter().map(|&x| x as usize).collect();
                let r = guarded(|| exec(&h));
                println_err(&format!("replay {name} {}: {:?}", desc(&h), r.as_ref().map(|_| ())));
                if let Err(e) = r {
                    self.violations.push(Violation { domain: name.into(), state: st.clone(), what: e, text: desc(&h) });
                }
            }
            return;
        }
        let mut seen: HashSet<Vec<u8>> = HashSet::new();
        let mut frontier: Vec<Vec<u16>> = vec![vec![]];
        let (mut states, mut transitions, mut validated) = (0u64, 0u64, 0u64);
        let mut found: Vec<(Vec<u16>, String)> = vec![];
        match guarded(|| exec(&[])) {
            Ok(Some(k)) => {
                seen.insert(k);
                states += 1;
            }
            Ok(None) => engine_error("initial state pruned"),
            Err(e) => found.push((vec![], e)),
        }
        let mut max_depth = 0;
        let nthreads = self.threads;
        let (prop, dname) = (self.prop.clone(), name.to_string());
        for d in 0..depth {
            if frontier.is_empty() || !found.is_empty() {
                break;
            }
            max_depth = d + 1;
            let total = frontier.len() as u64 * ops as u64;
            let next = AtomicU64::new(0);
            let block = (total / (nthreads as u64 * 16)).clamp(1, 256);
            let results: Mutex<Vec<(u64, Result<Option<Vec<u8>>, String>)>> = Mutex::new(vec![]);
            let val = AtomicU64::new(0);
            let stop = AtomicBool::new(false);
            let watch = Watch::new(nthreads);
            let fr = &frontier;
            let hist = |i: u64| -> Vec<usize> {
                let mut h: Vec<usize> = fr[(i / ops as u64) as usize].iter().map(|&x| x as usize).collect();
                h.push((i % ops as u64) as usize);
                h
            };
            let seen_ref = &seen;
            std::thread::scope(|s| {
                let mut hs = vec![];
                for t in 0..nthreads {
                    let (next, results, val, stop, watch, hist) = (&next, &results, &val, &stop, &watch, &hist);
                    hs.push(s.spawn(move || {
                        CMP.with(|c| c.set(0));
                        let mut local = vec![];
                        while !stop.load(SeqCst) {
                            let from = next.fetch_add(block, SeqCst);
                            if from >= total {
                                break;
                            }
                            for i in from..(from + block).min(total) {
                                watch.beat(t, i);
                                let r = guarded(|| exec(&hist(i)));
                                let keep = match &r {
                                    Ok(Some(k)) => !seen_ref.contains(k),
                                    Ok(None) => false,
                                    Err(_) => {
                                        stop.store(true, SeqCst);
                                        true
                                    }
                                };
                                if keep {
                                    local.push((i, r));
                                }
                            }
                        }
                        watch.idle(t);
                        val.fetch_add(CMP.with(|c| c.get()), SeqCst);
                        results.lock().unwrap().append(&mut local);
                    }));
                }
                let (w, hist, prop, dname) = (&watch, &hist, &prop, &dname);
                s.spawn(move || {
                    w.watch(&|i| {
                        let h = hist(i);
                        emergency(prop, Violation {
                            domain: dname.clone(),
                            state: h.iter().map(|&x| x as i64).collect(),
                            what: "the code under test does not return (no answer within 30 s)".into(),
                            text: desc(&h),
                        });
                    })
                });
                for h in hs {
                    if h.join().is_err() {
                        engine_error("a worker panicked outside of the code under test");
                    }
                }
                watch.done.store(true, SeqCst);
            });
            transitions += total.min(next.load(SeqCst));
            validated += val.load(SeqCst);
            let mut rs = results.into_inner().unwrap();
            rs.sort_by_key(|r| r.0);
            let mut nf = vec![];
            for (i, r) in rs {
                let h: Vec<u16> = hist(i).iter().map(|&x| x as u16).collect();
                match r {
                    Ok(Some(k)) => {
                        if seen.insert(k) {
                            states += 1;
                            nf.push(h);
                        }
                    }
                    Ok(None) => {}
                    Err(e) => found.push((h, e)),
                }
            }
            if self.samples.len() < 40 {
                if let Some(h) = nf.last() {
                    let h: Vec<usize> = h.iter().map(|&x| x as usize).collect();
                    self.samples.push(format!("{name}: {}", desc(&h)));
                }
            }
            frontier = nf;
        }
        let complete = frontier.is_empty();
        for (h, e) in found.into_iter().take(MAX_PER_DOMAIN) {
            let u: Vec<usize> = h.iter().map(|&x| x as usize).collect();
            self.violations.push(Violation { domain: name.into(), state: h.iter().map(|&x| x as i64).collect(), what: e, text: desc(&u) });
        }
        self.stats.push(Stat {
            name: name.into(),
            states,
            transitions,
            validated,
            bound: format!(
                "all histories over {ops} operations up to length {max_depth}{}",
                if complete { " (state space closed)" } else { "" }
            ),
            outcomes: BTreeMap::new(),
        });
    }
}

struct Watch {
    cur: Vec<AtomicU64>,
    done: AtomicBool,
}

impl Watch {
    fn new(n: usize) -> Self {
        Watch { cur: (0..n).map(|_| AtomicU64::new(u64::MAX)).collect(), done: AtomicBool::new(false) }
    }
    #[inline]
    fn beat(&self, t: usize, i: u64) {
        self.cur[t].store(i, Relaxed);
    }
    fn idle(&self, t: usize) {
        self.cur[t].store(u64::MAX, Relaxed);
    }
    fn watch(&self, hang: &dyn Fn(u64)) {
        // counted in ticks of this loop, so that a sandbox that stands still is not taken for a hang
        let mut last: Vec<(u64, u32)> = self.cur.iter().map(|c| (c.load(Relaxed), 0)).collect();
        while !self.done.load(SeqCst) {
            std::thread::sleep(std::time::Duration::from_millis(2));
            for (c, l) in self.cur.iter().zip(last.iter_mut()) {
                let v = c.load(Relaxed);
                if v != l.0 {
                    *l = (v, 0);
                } else if v != u64::MAX {
                    l.1 += 1;
                    if l.1 > 15_000 {
                        hang(v);
                    }
                }
            }
        }
    }
}

fn println_err(s: &str) {
    eprintln!("{s}");
}

fn engine_error(s: &str) -> ! {
    eprintln!("ENGINE ERROR: {s}");
    std::process::exit(3)
}

static FINISHING: AtomicUsize = AtomicUsize::new(0);

/// Report a violation from a watchdog and end the process (the worker never comes back).
fn emergency(prop: &str, v: Violation) {
    if FINISHING.fetch_add(1, SeqCst) == 0 {
        let path = std::env::var("MC_REPORT").unwrap_or_default();
        let out = render(prop, &[v], &Default::default(), &[], &[], Tier::Quick, 0.0, true, false);
        let _ = std::fs::write(path, out);
        std::process::exit(0);
    }
    std::thread::sleep(std::time::Duration::from_secs(5));
}

#[allow(clippy::too_many_arguments)]
fn render(
    prop: &str,
    violations: &[Violation],
    stats: &Vec<Stat>,
    samples: &[String],
    assumptions: &[String],
    tier: Tier,
    wall: f64,
    aborted: bool,
    silent: bool,
) -> String {
    use json::J;
    let mut o = BTreeMap::new();
    o.insert("prop".into(), J::S(prop.into()));
    o.insert("silent".into(), J::B(silent));
    o.insert("aborted".into(), J::B(aborted));
    o.insert("tier".into(), J::S(if tier == Tier::Quick { "quick" } else { "thorough" }.into()));
    o.insert("wall".into(), J::N(wall));
    o.insert("samples".into(), J::A(samples.iter().map(|s| J::S(s.clone())).collect()));
    o.insert("assumptions".into(), J::A(assumptions.iter().map(|s| J::S(s.clone())).collect()));
    o.insert(
        "violations".into(),
        J::A(violations
            .iter()
            .map(|v| {
                let mut m = BTreeMap::new();
                m.insert("property".into(), J::S(prop.into()));
                m.insert("domain".into(), J::S(v.domain.clone()));
                m.insert("state".into(), J::A(v.state.iter().map(|&x| J::N(x as f64)).collect()));
                m.insert("what".into(), J::S(v.what.clone()));
                m.insert("text".into(), J::S(v.text.clone()));
                J::O(m)
            })
            .collect()),
    );
    o.insert(
        "domains".into(),
        J::A(stats
            .iter()
            .map(|s| {
                let mut m = BTreeMap::new();
                m.insert("name".into(), J::S(s.name.clone()));
                m.insert("states".into(), J::N(s.states as f64));
                m.insert("transitions".into(), J::N(s.transitions as f64));
                m.insert("comparisons_with_model".into(), J::N(s.validated as f64));
                m.insert("bound".into(), J::S(s.bound.clone()));
                if !s.outcomes.is_empty() {
                    m.insert("outcomes".into(), J::O(s.outcomes.iter().map(|(k, v)| (k.to_string(), J::N(*v as f64))).collect()));
                }
                J::O(m)
            })
            .collect()),
    );
    J::O(o).to_string()
}

pub type Check = fn(&mut Run);

/// Entry point of every check binary: `<bin> <property>` or `<bin> replay <file>`.
pub fn main(checks: &[(&str, Check)]) -> ! {
    let args: Vec<String> = std::env::args().skip(1).collect();
    let verif = std::env::var("VERIF_DIR").unwrap_or_else(|_| "/verif".into());
    let tier = match std::env::var("VERIF_TIER").as_deref() {
        Ok("thorough") => Tier::Thorough,
        _ => Tier::Quick,
    };
    let (prop, replay) = if args.first().map(|s| s.as_str()) == Some("replay") {
        let f = std::fs::read_to_string(&args[1]).unwrap_or_else(|e| engine_error(&format!("{}: {e}", args[1])));
        let j = json::parse(&f).unwrap_or_else(|e| engine_error(&e));
        let st = j.get("state").arr().iter().map(|x| x.num() as i64).collect();
        (j.get("property").str(), Some((j.get("domain").str(), st)))
    } else {
        (args.first().cloned().unwrap_or_default(), None)
    };
    let check = checks
        .iter()
        .find(|c| c.0 == prop)
        .unwrap_or_else(|| engine_error(&format!("unknown property {prop}")))
        .1;
    if std::env::var("MC_CHILD").is_ok() {
        child(&prop, tier, replay, check)
    } else {
        parent(&verif, &prop, tier, replay.is_some(), &args)
    }
}

fn child(prop: &str, tier: Tier, replay: Option<(String, Vec<i64>)>, check: Check) -> ! {
    std::panic::set_hook(Box::new(|info| {
        let at_repo = info.location().is_some_and(|l| l.file().starts_with("/repo/"));
        PANIC_IN_REPO.with(|x| x.set(at_repo));
        if at_repo {
            return;
        }
        if !IN_LIB.with(|x| x.get()) {
            eprintln!("{info}");
        }
    }));
    let mut run = Run {
        prop: prop.into(),
        tier,
        replay,
        stats: vec![],
        samples: vec![],
        assumptions: vec![],
        violations: vec![],
        stdout_must_be_silent: false,
        start: Instant::now(),
        threads: std::thread::available_parallelism().map(|n| n.get()).unwrap_or(4),
    };
    check(&mut run);
    let out = render(
        prop,
        &run.violations,
        &run.stats,
        &run.samples,
        &run.assumptions,
        tier,
        run.start.elapsed().as_secs_f64(),
        false,
        run.stdout_must_be_silent,
    );
    std::fs::write(std::env::var("MC_REPORT").expect("MC_REPORT"), out).expect("report");
    std::process::exit(0)
}

fn parent(verif: &str, prop: &str, tier: Tier, replay: bool, args: &[String]) -> ! {
    use json::J;
    use std::io::Read;
    let t0 = Instant::now();
    let _ = std::fs::create_dir_all(format!("{verif}/evidence"));
    let report = format!("{verif}/evidence/.report-{prop}-{}", std::process::id());
    let mut ch = std::process::Command::new(std::env::current_exe().unwrap())
        .args(args)
        .env("MC_CHILD", "1")
        .env("MC_REPORT", &report)
        .stdout(std::process::Stdio::piped())
        .spawn()
        .unwrap_or_else(|e| engine_error(&e.to_string()));
    let mut so = ch.stdout.take().unwrap();
    let (mut bytes, mut head, mut buf) = (0u64, Vec::new(), [0u8; 65536]);
    while let Ok(n) = so.read(&mut buf) {
        if n == 0 {
            break;
        }
        bytes += n as u64;
        if head.len() < 200 {
            head.extend_from_slice(&buf[..n.min(200)]);
        }
    }
    let status = ch.wait().unwrap();
    let mut txt = std::fs::read_to_string(&report).unwrap_or_default();
    let _ = std::fs::remove_file(&report);
    if !status.success() && txt.is_empty() {
        use std::os::unix::process::ExitStatusExt;
        match status.signal() {
            // Panics are caught, so that only the code under test can overflow the stack or abort.
            Some(6 | 11) => {
                let v = Violation {
                    domain: "process".into(),
                    state: vec![],
                    what: format!("the code under test ended the process ({status}): stack overflow, abort or unbounded recursion"),
                    text: "whole exploration".into(),
                };
                txt = render(prop, &[v], &vec![], &[], &[], tier, 0.0, true, false);
            }
            _ => engine_error(&format!("exploration ended with {status}")),
        }
    }
    let j = json::parse(&txt).unwrap_or_else(|e| engine_error(&format!("no report: {e}")));
    let mut violations: Vec<J> = j.get("violations").arr().to_vec();
    if matches!(j.get("silent"), J::B(true)) && bytes > 0 {
        let mut m = BTreeMap::new();
        m.insert("property".into(), J::S(prop.into()));
        m.insert("domain".into(), J::S("stdout".into()));
        m.insert("state".into(), J::A(vec![]));
        m.insert("what".into(), J::S(format!("queries wrote {bytes} bytes to stdout")));
        m.insert("text".into(), J::S(String::from_utf8_lossy(&head[..head.len().min(200)]).into_owned()));
        violations.push(J::O(m));
    }
    // Known findings, committed under /verif; matched by property, domain and state.
    let known = std::fs::read_to_string(format!("{verif}/known-findings.jsonl")).unwrap_or_default();
    let known: Vec<J> = known
        .lines()
        .filter(|l| l.trim_start().starts_with('{'))
        .map(|l| json::parse(l).unwrap_or_else(|e| engine_error(&format!("known-findings: {e}"))))
        .filter(|k| k.get("status").str() == "known" && k.get("property").str() == prop)
        .collect();
    let _ = std::fs::create_dir_all(format!("{verif}/replays"));
    let mut n_bad = 0;
    for v in &violations {
        let is_known = known.iter().any(|k| {
            k.get("domain").str() == v.get("domain").str() && k.get("state").to_string() == v.get("state").to_string()
        });
        if is_known {
            println!("KNOWN-FINDING: property={prop} {} -- {}", v.get("text").str(), v.get("what").str());
            continue;
        }
        let path = format!("{verif}/replays/{prop}-{n_bad}.json");
        n_bad += 1;
        let _ = std::fs::write(&path, format!("{v}\n"));
        println!("{}: {} -- {}", v.get("domain").str(), v.get("text").str(), v.get("what").str());
        println!("VIOLATION property={prop} replay={path}");
    }
    if !replay {
        let sum = |f: &str| j.get("domains").arr().iter().map(|d| d.get(f).num()).sum::<f64>();
        let mut cov = BTreeMap::new();
        cov.insert("states".into(), J::N(sum("states")));
        cov.insert("transitions".into(), J::N(sum("transitions")));
        cov.insert("traces_validated_against_impl".into(), J::N(sum("comparisons_with_model")));
        cov.insert("exhaustive".into(), J::B(!matches!(j.get("aborted"), J::B(true)) && n_bad == 0));
        cov.insert("samples".into(), j.get("samples"));
        cov.insert("domains".into(), j.get("domains"));
        cov.insert(
            "rule".into(),
            J::S("every state of each domain is executed on the real code and compared with the reference model; \
                  `traces_validated_against_impl` counts those comparisons; `transitions` counts the calls into the \
                  code under test plus judged unit moves (lattice domains) or the operations appended to a history (history domains)".into()),
        );
        let mut e = BTreeMap::new();
        e.insert("property".into(), J::S(prop.into()));
        e.insert("tier".into(), J::S(if tier == Tier::Quick { "quick" } else { "thorough" }.into()));
        e.insert("seed".into(), J::N(std::env::var("VERIF_SEED").ok().and_then(|s| s.parse().ok()).unwrap_or(1.0)));
        e.insert("level".into(), J::S("model_checking".into()));
        e.insert("coverage".into(), J::O(cov));
        e.insert("assumptions".into(), j.get("assumptions"));
        e.insert("wall_s".into(), J::N((t0.elapsed().as_secs_f64() * 1000.0).round() / 1000.0));
        e.insert("violations".into(), J::N(n_bad as f64));
        std::fs::write(format!("{verif}/evidence/{prop}.json"), format!("{}\n", J::O(e))).unwrap_or_else(|e| engine_error(&e.to_string()));
        println!(
            "{prop} {:?}: states={} transitions={} comparisons={} violations={n_bad} wall={:.1}s",
            tier,
            sum("states"),
            sum("transitions"),
            sum("comparisons_with_model"),
            t0.elapsed().as_secs_f64()
        );
    } else {
        println!("replayed: {} violation(s)", n_bad);
    }
    std::process::exit(if n_bad > 0 { 1 } else { 0 })
}
