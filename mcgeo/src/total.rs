//! C14: queries are total, pure and silent, on degenerate and exactly touching configurations, too.
use crate::scene::*;
use mckit::{ensure, Run, Tier, Verdict};

fn shapes() -> Vec<Spec> {
    let p = Spec::poly;
    let plain = vec![
        Spec::Pt,
        Spec::Disc(0.0),
        Spec::Disc(1.0),
        Spec::Disc(0.25),
        Spec::Disc(1e-6),
        Spec::Boxy(0.0, 0.0),
        Spec::Boxy(1.0, 1.0),
        Spec::Boxy(1.0, 0.0),
        Spec::Boxy(0.0, 0.5),
        Spec::Boxy(2.0, 0.25),
        Spec::Boxy(1000.0, 1e-3),
        p("origin", &[[0.0, 0.0]]),
        p("dot", &[[0.5, 0.0]]),
        p("segment", &[[-1.0, 0.0], [1.0, 0.0]]),
        p("diagonal", &[[-1.0, -1.0], [1.0, 1.0]]),
        p("equal", &[[0.0, 0.0], [0.0, 0.0], [0.0, 0.0]]),
        p("collinear", &[[-1.0, 0.0], [0.0, 0.0], [0.5, 0.0], [1.0, 0.0]]),
        p("square", &[[-1.0, -1.0], [1.0, -1.0], [1.0, 1.0], [-1.0, 1.0]]),
        p("corner at origin", &[[0.0, 0.0], [1.0, 0.0], [1.0, 1.0], [0.0, 1.0]]),
        p("triangle", &[[-1.0, -1.0], [1.0, -1.0], [-1.0, 2.0]]),
        p("duplicates", &[[-1.0, -1.0], [-1.0, -1.0], [1.0, -1.0], [1.0, -1.0], [0.0, 1.0], [0.0, 1.0]]),
        p("needle", &[[-1000.0, 0.0], [1000.0, -1e-3], [1000.0, 1e-3]]),
        p("12-gon", &regular(12, 1.0, 0.0)),
        p("120-gon", &regular(120, 1.0, 0.0)),
        Spec::Cap(1.0, 0.0),
        Spec::Cap(0.0, 0.5),
        Spec::Cap(0.0, 0.0),
    ];
    let mut v = plain.clone();
    v.extend(plain[1..24].iter().cloned().map(|s| Spec::U(Box::new(s))));
    v
}

fn judge(p: &dyn Pair, kind: Kind, how: &How) -> Verdict {
    let mut label = "apart";
    let mut qs = vec![Q::Coll, Q::Pen, Q::Dist, Q::Sdfv];
    if p.has_sdf() {
        qs.push(Q::Sdf);
    }
    let fin = |q: Q, v: auburn::col2d::Vec2| -> Result<(), String> {
        ensure!(v.is_finite(), "{q:?} answers {v:?}");
        Ok(())
    };
    for q in qs {
        let a = p.ask(kind, how, q)?;
        match a {
            Ans::Flag(c) => {
                if c {
                    label = "overlap"
                }
            }
            Ans::Maybe(None) => {}
            Ans::Maybe(Some(v)) | Ans::Both(_, v) => fin(q, v)?,
            Ans::Num(x) => {
                ensure!(x.is_finite(), "{q:?} answers {x}");
            }
        }
        let b = p.ask(kind, how, q)?;
        ensure!(format!("{a:?}") == format!("{b:?}"), "{q:?} answers {a:?}, then {b:?}");
    }
    Ok(label)
}

pub fn c14(run: &mut Run) {
    run.stdout_must_be_silent = true;
    run.assume("shapes are finite with no negative dimension; polygons have at least one point; logging is off (the default)");
    let sp = shapes();
    let mut pairs = vec![];
    for x in &sp {
        for y in &sp {
            pairs.extend(pair(x, y));
        }
    }
    // one coordinate: exact contacts of the shapes above, and next to nothing on either side of them
    let thorough = run.tier == Tier::Thorough;
    let steps: Vec<f32> = if thorough {
        vec![-3.0, -2.0, -1.5, -1.25, -1.0, -0.5, -0.25, 0.0, 0.125, 0.25, 0.5, 0.75, 1.0, 1.25, 1.5, 2.0, 2.25, 3.0, 999.0, 2000.0]
    } else {
        vec![-2.0, -1.25, -1.0, 0.0, 0.25, 0.5, 1.0, 1.25, 2.0, 3.0, 2000.0]
    };
    let nudges: Vec<f32> = if thorough { vec![0.0, 1e-7, -1e-7, 3e-5, -2e-20, 1e-38] } else { vec![0.0, 1e-7, -2e-20] };
    let rots: Vec<f32> = {
        let n = if thorough { 24 } else { 8 };
        let mut v: Vec<f32> = (0..n).map(|i| (std::f64::consts::TAU * i as f64 / n as f64) as f32).collect();
        v.extend([1e-7, -0.3, 30.0]);
        v
    };
    let axis: Vec<f32> = steps.iter().flat_map(|s| nudges.iter().map(move |n| s + n)).collect();
    let axis = {
        let mut a = axis;
        a.dedup();
        a
    };
    let spot = |ix: &[usize]| Spot { a: rots[ix[1]], k: 1.0, p: [axis[ix[2]], steps[ix[3]]] };
    run.lattice(
        "contact",
        &[pairs.len(), rots.len(), axis.len(), steps.len()],
        &|ix| format!("{} {:?}", pairs[ix[0]].name(), spot(ix)),
        &|ix| judge(&*pairs[ix[0]], Kind::Full, &How::Rel(spot(ix))),
    );
    // any distance, all around
    let far: Vec<f32> = {
        let per = run.tier.pick(4, 12);
        (-6 * per..=6 * per).map(|i| 10f64.powf(i as f64 / per as f64) as f32).collect()
    };
    let ways: Vec<[f32; 2]> = [[1.0f32, 0.0], [0.0, 1.0], [0.8, 0.6], [0.05, 1.0], [1.0, 1e-4]].into_iter().flat_map(|[x, y]| [[x, y], [-x, y], [x, -y], [-x, -y]]).collect();
    let few = [0.0f32, 0.7, -1.5707964];
    let spot = |ix: &[usize]| Spot { a: few[ix[1]], k: 1.0, p: ways[ix[2]].map(|x| x * far[ix[3]]) };
    run.lattice(
        "reach",
        &[pairs.len(), few.len(), ways.len(), far.len()],
        &|ix| format!("{} {:?}", pairs[ix[0]].name(), spot(ix)),
        &|ix| judge(&*pairs[ix[0]], Kind::Full, &How::Rel(spot(ix))),
    );
    // to one side, with a little of the other
    let aside = [-5.0f32, -3.0, -0.7, 0.0, 0.4, 4.0];
    let spot = |ix: &[usize]| {
        let (x, y) = (aside[ix[1]], far[ix[3]] * [1.0, -1.0][ix[2] / 2]);
        Spot { a: 0.0, k: 1.0, p: if ix[2] % 2 == 0 { [x, y] } else { [y, x] } }
    };
    run.lattice(
        "aside",
        &[pairs.len(), aside.len(), 4, far.len()],
        &|ix| format!("{} {:?}", pairs[ix[0]].name(), spot(ix)),
        &|ix| judge(&*pairs[ix[0]], Kind::Full, &How::Rel(spot(ix))),
    );
    // other transform types, forms and scales
    let ks = [1.0f32, 0.5, 1e-3, 300.0];
    let poses = [Spot::HOME, Spot { a: 0.5, k: 2.0, p: [1.0, -2.0] }, Spot { a: 0.0, k: 1.0, p: [1e6, 1e6] }];
    let how = |ix: &[usize]| -> Option<(Kind, How)> {
        let kind = KINDS[ix[1]];
        let (ta, form) = (poses[ix[2] % 3], (ix[2] / 3) as u8);
        let b = Spot { a: 0.0, k: ks[ix[3]] * ta.k, p: [ta.p[0] + steps[ix[4]], ta.p[1] + steps[ix[5]]] };
        (kind.can(&ta) && kind.can(&b)).then_some((kind, if form == 3 { How::Rel(b) } else { How::World(form, ta, b) }))
    };
    run.lattice(
        "forms",
        &[pairs.len(), KINDS.len(), 12, ks.len(), steps.len(), steps.len()],
        &|ix| format!("{} {:?}", pairs[ix[0]].name(), how(ix)),
        &|ix| match how(ix) {
            Some((kind, h)) => judge(&*pairs[ix[0]], kind, &h),
            None => Ok("not expressible"),
        },
    );
    crate::memory::queries(run);
}
