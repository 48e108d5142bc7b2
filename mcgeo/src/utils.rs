//! C21 (publishers), C22 (approximate equality) and C26 (interpolation, squares).
use auburn::assert_approx_eq;
use auburn::utils::approx::Approx;
use auburn::utils::publisher::*;
use auburn::{Vec2, Vec3};
use mckit::{ensure, lib, Run, Tier, Verdict};
use std::collections::HashSet;
use std::sync::{Arc, Mutex};

pub fn c21(run: &mut Run) {
    run.assume("subscribers return");
    // ledgers: notify one of four events, of two event types
    let names = ["a", "b", "", "a longer one"];
    let n = names.len();
    run.histories(
        "ledger",
        n,
        run.tier.pick(7, 9),
        &|h| format!("notify {:?}", h.iter().map(|&e| names[e]).collect::<Vec<_>>()),
        &|h| {
            let mut l: Ledger<u32> = lib("new", Ledger::new)?;
            let mut d: Ledger<String> = lib("default", Ledger::default)?;
            for (i, &e) in h.iter().enumerate() {
                lib("notify", || l.notify(e as u32))?;
                lib("notify", || d.notify(names[e].to_string()))?;
                ensure!(l.events.len() == i + 1, "the ledger holds {:?}", l.events);
            }
            ensure!(l.events.iter().map(|&x| x as usize).eq(h.iter().copied()), "the ledger holds {:?}", l.events);
            ensure!(d.events.iter().eq(h.iter().map(|&x| names[x])), "the ledger holds {:?}", d.events);
            Ok(Some(h.iter().map(|&x| x as u8).collect()))
        },
    );
    run.histories(
        "set-ledger",
        n,
        run.tier.pick(7, 9),
        &|h| format!("notify {:?}", h.iter().map(|&e| names[e]).collect::<Vec<_>>()),
        &|h| {
            let mut l: HashsetLedger<u32> = lib("new", HashsetLedger::new)?;
            let mut d: HashsetLedger<String> = lib("default", HashsetLedger::default)?;
            for &e in h {
                lib("notify", || l.notify(e as u32))?;
                lib("notify", || d.notify(names[e].to_string()))?;
            }
            let want: HashSet<u32> = h.iter().map(|&x| x as u32).collect();
            ensure!(l.events == want, "the set ledger holds {:?}", l.events);
            let want: HashSet<String> = h.iter().map(|&x| names[x].to_string()).collect();
            ensure!(d.events == want, "the set ledger holds {:?}", d.events);
            Ok(Some(h.iter().map(|&x| x as u8).collect()))
        },
    );
    // long histories: the same event, all different ones, and a cycle of some
    let steps: Vec<usize> = run.tier.pick(vec![10, 300, 5000, 70_000], vec![10, 100, 300, 1100, 5000, 20_000, 70_000, 1_100_000]);
    run.lattice(
        "long",
        &[steps.len(), 3, 3],
        &|ix| format!("{} events of {} to publisher {}", steps[ix[0]], ["one kind", "a new kind each", "seven kinds"][ix[1]], ix[2]),
        &|ix| {
            let n = steps[ix[0]];
            let event = |i: usize| match ix[1] {
                0 => 5,
                1 => i as u32,
                _ => (i % 7) as u32,
            };
            match ix[2] {
                0 => {
                    let mut l: Ledger<u32> = lib("new", Ledger::new)?;
                    for i in 0..n {
                        lib("notify", || l.notify(event(i)))?;
                        ensure!(l.events.len() == i + 1 && l.events[i] == event(i), "the ledger holds {} events after {}", l.events.len(), i + 1);
                    }
                    ensure!(l.events.iter().enumerate().all(|(i, e)| *e == event(i)), "the ledger holds other events than notified");
                }
                1 => {
                    let mut l: HashsetLedger<u32> = lib("new", HashsetLedger::new)?;
                    let mut want = HashSet::new();
                    for i in 0..n {
                        lib("notify", || l.notify(event(i)))?;
                        want.insert(event(i));
                        ensure!(l.events.len() == want.len(), "the set ledger holds {} events instead of {}", l.events.len(), want.len());
                    }
                    ensure!(l.events == want, "the set ledger holds other events than notified");
                }
                _ => {
                    // a subscriber more after every so many events
                    let log: Arc<Mutex<Vec<(usize, u32)>>> = Arc::default();
                    let mut p: CallbackPublisher<u32> = lib("new", CallbackPublisher::new)?;
                    let every = n / 40 + 1;
                    let mut subs = 0;
                    for i in 0..n {
                        if i % every == 0 {
                            let (log, id) = (log.clone(), subs);
                            lib("attach", || p.attach(move |e: &u32| log.lock().unwrap().push((id, *e))))?;
                            subs += 1;
                        }
                        lib("notify", || p.notify(event(i)))?;
                        let mut got = log.lock().unwrap();
                        ensure!(got.iter().copied().eq((0..subs).map(|s| (s, event(i)))), "event {i} reached {got:?} of {subs} subscribers");
                        got.clear();
                    }
                }
            }
            Ok("delivered")
        },
    );
    // many subscribers
    let crowd = run.tier.pick(600usize, 5000);
    run.lattice("crowd", &[crowd], &|ix| format!("{} subscribers", ix[0]), &|ix| {
        let log: Arc<Mutex<Vec<usize>>> = Arc::default();
        let mut p: CallbackPublisher<u32> = lib("new", CallbackPublisher::new)?;
        for id in 0..ix[0] {
            let log = log.clone();
            lib("attach", || p.attach(move |_: &u32| log.lock().unwrap().push(id)))?;
        }
        for _ in 0..2 {
            lib("notify", || p.notify(1))?;
            let mut got = log.lock().unwrap();
            ensure!(got.iter().copied().eq(0..ix[0]), "{got:?} of {} subscribers were called", ix[0]);
            got.clear();
        }
        Ok("delivered")
    });
    // callbacks: 0 attaches a subscriber, the others notify an event
    for fresh in [true, false] {
        run.histories(
            if fresh { "callback-new" } else { "callback-default" },
            3,
            run.tier.pick(9, 12),
            &|h| format!("{h:?} (0 attaches, 1 and 2 notify)"),
            &|h| {
                let log: Arc<Mutex<Vec<(usize, usize)>>> = Arc::default();
                let mut p: CallbackPublisher<usize> =
                    lib("new", || if fresh { CallbackPublisher::new() } else { CallbackPublisher::default() })?;
                let (mut subs, mut want) = (0usize, vec![]);
                for &op in h {
                    if op == 0 {
                        let (log, id) = (log.clone(), subs);
                        lib("attach", || p.attach(move |e: &usize| log.lock().unwrap().push((id, *e))))?;
                        subs += 1;
                    } else {
                        lib("notify", || p.notify(op))?;
                        want.extend((0..subs).map(|s| (s, op)));
                    }
                    let got = log.lock().unwrap();
                    ensure!(*got == want, "subscribers were called as {got:?} instead of {want:?}");
                }
                Ok(Some(h.iter().map(|&x| x as u8).collect()))
            },
        );
    }
}

/// Relative margin around the tolerance within which either answer is accepted.
const MARGIN: f64 = 1e-4;

/// Some(answer) where the contract settles it.
fn contract_scalar(a: f32, b: f32, tol: f32) -> Option<bool> {
    if a == b {
        return Some(true);
    }
    if !a.is_finite() || !b.is_finite() {
        return Some(false);
    }
    let (x, y, t) = (a as f64, b as f64, tol as f64);
    let e = (x - y).abs();
    let (lo, hi) = if x == 0.0 || y == 0.0 {
        (e, e)
    } else {
        (e / x.abs().max(y.abs()), e / x.abs().min(y.abs()))
    };
    settle(lo, hi, t)
}

fn settle(lo: f64, hi: f64, t: f64) -> Option<bool> {
    if hi <= t * (1.0 - MARGIN) {
        Some(true)
    } else if lo >= t * (1.0 + MARGIN) {
        Some(false)
    } else {
        None
    }
}

fn contract_vector(a: &[f32], b: &[f32], tol: f32) -> Option<bool> {
    if a == b {
        return Some(true);
    }
    if a.iter().chain(b).any(|x| !x.is_finite()) {
        return Some(false);
    }
    let len = |v: &mut dyn Iterator<Item = f64>| v.map(|x| x * x).sum::<f64>().sqrt();
    let e = len(&mut a.iter().zip(b).map(|(x, y)| *x as f64 - *y as f64));
    let (la, lb) = (len(&mut a.iter().map(|x| *x as f64)), len(&mut b.iter().map(|x| *x as f64)));
    let r = e / la.max(lb);
    settle(r, r, tol as f64)
}

fn judge<T: Approx + std::fmt::Debug>(a: T, b: T, tols: &[f32], want: &dyn Fn(f32) -> Option<bool>) -> Verdict {
    let mut label = "different";
    let mut before = false;
    for &t in tols {
        let got = lib("approx_eq_tolerance", || a.approx_eq_tolerance(&b, t))?;
        let back = lib("approx_eq_tolerance", || b.approx_eq_tolerance(&a, t))?;
        if let Some(w) = want(t) {
            ensure!(got == w, "{a:?} and {b:?} at tolerance {t} are {got}");
            ensure!(back == w, "{b:?} and {a:?} at tolerance {t} are {back}");
        }
        ensure!(got || !before, "{a:?} and {b:?} are rejected at tolerance {t}, but accepted at a smaller one");
        before = got;
        if got {
            label = "equal";
        }
    }
    let got = lib("approx_eq", || a.approx_eq(&b))?;
    ensure!(T::DEFAULT_TOLERANCE == 1e-6, "default tolerance is {}", T::DEFAULT_TOLERANCE);
    let full = lib("approx_eq_tolerance", || a.approx_eq_tolerance(&b, 1e-6))?;
    ensure!(got == full, "approx_eq({a:?}, {b:?}) is {got}, at the default tolerance {full}");
    // the assertion fails exactly if they are not approximately equal
    let asserted = lib("assert_approx_eq", || assert_approx_eq!(a, b)).is_ok();
    ensure!(asserted == got, "assert_approx_eq!({a:?}, {b:?}) passes: {asserted}, approx_eq is {got}");
    Ok(label)
}

const TOLS: [f32; 6] = [1e-7, 1e-6, 1e-5, 1e-3, 1e-2, 0.05];

/// Relative differences around every tolerance and across them.
fn deltas() -> Vec<f64> {
    let mut v = vec![0.0, 2.0, 0.5, 1.0, -3.0];
    for t in TOLS {
        for f in [0.3, 0.9, 0.98, 1.03, 1.1, 3.0] {
            v.extend([t as f64 * f, -(t as f64) * f]);
        }
    }
    v
}

pub fn c22(run: &mut Run) {
    run.assume(&format!(
        "answers are not judged within a factor {MARGIN} of the tolerance, nor where the operands' magnitudes straddle it"
    ));
    run.assume("tolerances are up to 0.05; vectors have components of magnitude 1e-12 to 1e12 or zero");
    let ds = deltas();
    let mut bases: Vec<f32> = vec![0.0, -0.0];
    for e in -15..=15 {
        for m in [1.0, 1.7, 3.14159, 9.5] {
            bases.extend([m * 10f32.powi(e), -m * 10f32.powi(e)]);
        }
    }
    let pair = |ix: &[usize]| {
        let a = bases[ix[0]];
        (a, (a as f64 * (1.0 + ds[ix[1]])) as f32)
    };
    run.lattice("number", &[bases.len(), ds.len()], &|ix| format!("{:?}", pair(ix)), &|ix| {
        let (a, b) = pair(ix);
        judge(a, b, &TOLS, &|t| contract_scalar(a, b, t))
    });
    // every number against ones around the tolerance away
    let near: Vec<(f32, f64)> = [1e-6f32, 1e-4, 0.02].iter().flat_map(|&t| [0.98, -0.98, 1.03, -1.03].map(|f| (t, 1.0 + f * t as f64))).collect();
    run.floats("numbers", 1e-15, 1e15, run.tier.pick(256, 2), &|a| {
        for &(t, f) in &near {
            let b = (a as f64 * f) as f32;
            if let Some(w) = contract_scalar(a, b, t) {
                let got = lib("approx_eq_tolerance", || a.approx_eq_tolerance(&b, t))?;
                ensure!(got == w, "and {b:e} at tolerance {t} are {got}");
            }
            // in a plane: the difference along either axis
            let (u, v) = (Vec2::new(a, 0.5 * a), Vec2::new(b, 0.5 * a));
            if (1e-12..=1e12).contains(&a.abs()) {
                if let Some(w) = contract_vector(&u.to_array(), &v.to_array(), t) {
                    let got = lib("approx_eq_tolerance", || u.approx_eq_tolerance(&v, t))?;
                    ensure!(got == w, "{u:?} and {v:?} at tolerance {t} are {got}");
                }
            }
        }
        Ok(())
    });
    let specials = [
        0.0f32, -0.0, 1.0, -1.0, 1e-7, -1e-7, 9e-7, 1.1e-6, 0.004, 1e-20, f32::MIN_POSITIVE, 1e-40, 3.4e38, f32::MAX, f32::MIN,
        f32::INFINITY, f32::NEG_INFINITY, f32::NAN, -f32::NAN,
    ];
    run.lattice("special", &[specials.len(), specials.len()], &|ix| format!("{} {}", specials[ix[0]], specials[ix[1]]), &|ix| {
        let (a, b) = (specials[ix[0]], specials[ix[1]]);
        judge(a, b, &TOLS, &|t| contract_scalar(a, b, t))
    });
    // vectors: direction x magnitude x direction of the difference x relative difference
    let mags: Vec<f32> = (-12..=12).step_by(run.tier.pick(3, 1)).map(|e| 10f32.powi(e)).collect();
    let n2 = run.tier.pick(16, 64);
    let u2 = |i: usize| {
        let a = std::f64::consts::TAU * i as f64 / n2 as f64;
        // exact zeros on the axes
        let z = |x: f64| if x.abs() < 1e-9 { 0.0 } else { x };
        [z(a.cos()), z(a.sin())]
    };
    let v2 = |ix: &[usize]| {
        let (m, u, w, d) = (mags[ix[0]] as f64, u2(ix[1]), u2(ix[2]), ds[ix[3]]);
        let f = |k: usize| ((m * u[k]) as f32, (m * (u[k] + d * w[k])) as f32);
        let (x, y) = (f(0), f(1));
        (Vec2::new(x.0, y.0), Vec2::new(x.1, y.1))
    };
    run.lattice("vector2", &[mags.len(), n2, n2, ds.len()], &|ix| format!("{:?}", v2(ix)), &|ix| {
        let (a, b) = v2(ix);
        judge(a, b, &TOLS, &|t| contract_vector(&a.to_array(), &b.to_array(), t))
    });
    let u3: Vec<[f64; 3]> = {
        let mut v = vec![];
        for x in [-1.0f64, 0.0, 0.4, 1.0] {
            for y in [-1.0f64, 0.0, 0.7] {
                for z in [-0.2f64, 0.0, 1.0] {
                    let l = (x * x + y * y + z * z).sqrt();
                    if l > 0.0 {
                        v.push([x / l, y / l, z / l]);
                    }
                }
            }
        }
        v
    };
    let v3 = |ix: &[usize]| {
        let (m, u, w, d) = (mags[ix[0]] as f64, u3[ix[1]], u3[ix[2]], ds[ix[3]]);
        let a = [0, 1, 2].map(|k| (m * u[k]) as f32);
        let b = [0, 1, 2].map(|k| (m * (u[k] + d * w[k])) as f32);
        (Vec3::from(a), Vec3::from(b))
    };
    run.lattice("vector3", &[mags.len(), u3.len(), u3.len(), ds.len()], &|ix| format!("{:?}", v3(ix)), &|ix| {
        let (a, b) = v3(ix);
        judge(a, b, &TOLS, &|t| contract_vector(&a.to_array(), &b.to_array(), t))
    });
    // special components
    let sp = [0.0f32, -0.0, 1.0, -2.5, f32::INFINITY, f32::NEG_INFINITY, f32::NAN];
    let n = sp.len();
    let p2 = |ix: &[usize]| (Vec2::new(sp[ix[0]], sp[ix[1]]), Vec2::new(sp[ix[2]], sp[ix[3]]));
    run.lattice("special2", &[n; 4], &|ix| format!("{:?}", p2(ix)), &|ix| {
        let (a, b) = p2(ix);
        judge(a, b, &TOLS, &|t| contract_vector(&a.to_array(), &b.to_array(), t))
    });
    let p3 = |ix: &[usize]| (Vec3::new(sp[ix[0]], sp[ix[1]], sp[ix[2]]), Vec3::new(sp[ix[3]], sp[ix[4]], sp[ix[5]]));
    run.lattice("special3", &[n; 6], &|ix| format!("{:?}", p3(ix)), &|ix| {
        let (a, b) = p3(ix);
        judge(a, b, &TOLS, &|t| contract_vector(&a.to_array(), &b.to_array(), t))
    });
}

/// C26: interpolation and squaring against exact (f64) arithmetic.
pub fn c26(run: &mut Run) {
    use auburn::{Lerp, Square};
    run.assume("operands have magnitude up to 1e30, interpolation parameters up to 1e6");
    let mut nums: Vec<f32> = vec![0.0, -0.0, 1.0, -1.0, 0.5, 0.1, -2.75, 3.1415927, 1000.0, -1e6, 16777216.0, 1e-3, -1e-6, 1e-12, 1e12];
    let mut more: Vec<f32> = vec![1e20, -1e30, 1e-30, 7.7, -33.3];
    if run.tier == Tier::Thorough {
        more.extend((-29..30).flat_map(|e| [1.3f32, -7.1].map(|m| m * 10f32.powi(e))));
    }
    nums.extend(more);
    let n = run.tier.pick(64, 1024);
    let mut ts: Vec<f32> = (0..=n).map(|i| i as f32 / n as f32).collect();
    ts.extend([-0.0, 1e-7, 0.99999994, 1.0000001, 0.3, 1.5, 2.0, 10.0, 1e6, -1e-7, -0.3, -1.0, -20.0, 1e-30]);
    // a few roundings of the values involved, wherever they happen
    let want = |a: f32, b: f32, t: f32| {
        let (a, b, t) = (a as f64, b as f64, t as f64);
        (a + t * (b - a), 1e-6 * (a.abs() + b.abs()) * (1.0 + t.abs()) + 1e-37)
    };
    let near = |what: &str, got: f32, (w, tol): (f64, f64)| -> Result<(), String> {
        ensure!(got.is_finite() && (got as f64 - w).abs() <= tol, "{what} is {got:e} instead of {w:e}");
        Ok(())
    };
    let at = |ix: &[usize]| (nums[ix[0]], nums[ix[1]], ts[ix[2]]);
    run.lattice("lerp", &[nums.len(), nums.len(), ts.len()], &|ix| format!("(from, to, at) = {:?}", at(ix)), &|ix| {
        let (a, b, t) = at(ix);
        let x = lib("lerp", || Lerp::lerp(a, b, t))?;
        near("the interpolation", x, want(a, b, t))?;
        if t == 0.0 {
            ensure!(x == a, "the interpolation at 0 is {x:e} instead of {a:e}");
        }
        Ok("number")
    });
    let few: Vec<f32> = nums.iter().copied().step_by(2).collect();
    let ft: Vec<f32> = ts.iter().copied().step_by(run.tier.pick(5, 17)).chain([0.0, 1.0, -1.0]).collect();
    let m = few.len();
    let at = |ix: &[usize]| (Vec2::new(few[ix[0]], few[ix[1]]), Vec2::new(few[ix[2]], few[ix[3]]), ft[ix[4]]);
    run.lattice("lerp2", &[m, m, m, m, ft.len()], &|ix| format!("(from, to, at) = {:?}", at(ix)), &|ix| {
        let (a, b, t) = at(ix);
        let v = lib("lerp", || Lerp::lerp(a, b, t))?;
        near("x of the interpolation", v.x, want(a.x, b.x, t))?;
        near("y of the interpolation", v.y, want(a.y, b.y, t))?;
        Ok("vector")
    });
    run.floats("squares", 0.0, 1e18, run.tier.pick(64, 1), &|a| {
        let x = lib("square", || a.square())?;
        near("the square", x, (a as f64 * a as f64, 2e-7 * a as f64 * a as f64 + 1e-37))
    });
    let others = [0.0f32, 1.0, -3.7, 1e5];
    let shares = [0.0f32, 1.0, 0.25, 0.7, -0.5, 3.0];
    run.floats("operands", 0.0, 1e30, run.tier.pick(256, 4), &|a| {
        for b in others {
            for t in shares {
                near("the interpolation towards it", lib("lerp", || Lerp::lerp(b, a, t))?, want(b, a, t))?;
                near("the interpolation from it", lib("lerp", || Lerp::lerp(a, b, t))?, want(a, b, t))?;
            }
        }
        let v = lib("lerp", || Lerp::lerp(Vec2::new(a, -1.0), Vec2::new(2.0, a), 0.75))?;
        near("x of the interpolation", v.x, want(a, 2.0, 0.75))?;
        near("y of the interpolation", v.y, want(-1.0, a, 0.75))?;
        // mirrored, shared and equal coordinates
        for (p, q) in [([a, -a], [-a, a]), ([a, 2.0], [-a, 3.0]), ([2.0, -a], [0.5, a]), ([a, a], [a, 0.5]), ([a, 1.0], [-1.0, a]), ([a, a], [-a, -a]), ([0.0, a], [a, 0.0])] {
            for t in [0.3, 1.5, -0.5, 20.0] {
                let v = lib("lerp", || Lerp::lerp(Vec2::from(p), Vec2::from(q), t))?;
                near("x of the interpolation", v.x, want(p[0], q[0], t))?;
                near("y of the interpolation", v.y, want(p[1], q[1], t))?;
            }
        }
        Ok(())
    });
    run.floats("parameters", 0.0, 1e6, run.tier.pick(256, 4), &|t| {
        for (a, b) in [(0.0f32, 1.0f32), (2.0, -5.0), (-1e4, 1e-3)] {
            near("the interpolation", lib("lerp", || Lerp::lerp(a, b, t))?, want(a, b, t))?;
        }
        let v = lib("lerp", || Lerp::lerp(Vec2::new(1.0, -1.0), Vec2::new(2.0, 4.0), t))?;
        near("x of the interpolation", v.x, want(1.0, 2.0, t))?;
        near("y of the interpolation", v.y, want(-1.0, 4.0, t))
    });
    let mut sq: Vec<f32> = nums.iter().copied().filter(|x| x.abs() < 1e19).collect();
    sq.extend((-1000..=1000).map(|i| i as f32 * 0.37));
    run.lattice("square", &[sq.len()], &|ix| format!("{}", sq[ix[0]]), &|ix| {
        let a = sq[ix[0]];
        let x = lib("square", || a.square())?;
        near("the square", x, (a as f64 * a as f64, 2e-7 * a as f64 * a as f64 + 1e-37))?;
        Ok("number")
    });
}
