//! C01-C05: what the 2D queries answer, against the reference geometry.
use crate::domains::*;
use crate::scene::*;
use mckit::{ensure, Run, Verdict};

fn explore(run: &mut Run, w: &World, judge: &(dyn Fn(&Case) -> Verdict + Sync)) {
    for d in w.all() {
        run.lattice(&d.name, &d.dims, &|ix| (d.case)(ix).describe(), &|ix| {
            let c = (d.case)(ix);
            if c.size < SMALLEST && !c.pair.closed() {
                return Ok("smaller than claimed");
            }
            judge(&c)
        });
    }
}

fn scope(run: &mut Run) {
    run.assume("shapes, sizes and placements are those of the finite catalogue and lattices listed under coverage.domains");
    run.assume(&format!(
        "verdicts are not judged when |signed distance| < {BAND} x combined size + rounding of the coordinates involved"
    ));
    run.assume(&format!("pairs decided iteratively whose combined size is below {SMALLEST} are outside of the property (f32 underflows)"));
    run.assume("non-uniform scale is outside of the property (the crate documents it as approximate)");
}

pub fn c01(run: &mut Run) {
    scope(run);
    let w = World::new(run.tier, &|_| true);
    explore(run, &w, &|c| {
        let s = c.sd();
        let got = match c.ask(Q::Coll)? {
            Ans::Flag(b) => b,
            _ => unreachable!(),
        };
        if s.abs() <= c.band() {
            return Ok("touching");
        }
        ensure!(got == (s < 0.0), "collides = {got}, but the signed distance is {s:.7}");
        Ok(if got { "overlap" } else { "apart" })
    });
}

pub fn c02(run: &mut Run) {
    scope(run);
    let w = World::new(run.tier, &|_| true);
    explore(run, &w, &|c| {
        let s = c.sd();
        let (coll, pen, dist, full) = (c.ask(Q::Coll)?, c.ask(Q::Pen)?, c.ask(Q::Dist)?, c.ask(Q::Sdfv)?);
        let (Ans::Flag(coll), Ans::Maybe(pen), Ans::Maybe(dist), Ans::Both(flag, v)) = (coll, pen, dist, full) else { unreachable!() };
        let sdf = if c.pair.has_sdf() {
            match c.ask(Q::Sdf)? {
                Ans::Num(x) => Some(x as f64),
                _ => unreachable!(),
            }
        } else {
            None
        };
        if s.abs() <= c.band() {
            return Ok("touching");
        }
        let say = format!("collides {coll}, penetrates {pen:?}, distance_to {dist:?}, sdfv ({flag}, {v:?}), sdf {sdf:?}");
        ensure!(pen.is_some() == coll, "penetrates disagrees: {say}");
        ensure!(dist.is_none() == coll, "distance_to disagrees: {say}");
        ensure!(flag == coll, "the flag of sdfv disagrees: {say}");
        if let Some(x) = sdf {
            ensure!((x < 0.0) == coll, "the sign of sdf disagrees: {say}");
            let l = v.length() as f64;
            ensure!((x.abs() - l).abs() <= c.tol(s), "sdf and the length of sdfv differ: {say}");
        }
        // the vector forms agree in effect
        let other = if coll { pen } else { dist }.unwrap();
        let (l, m) = (v.length() as f64, other.length() as f64);
        ensure!((l - m).abs() <= 2.0 * c.tol(s), "lengths of the vector forms differ: {say}");
        let after = [v, other].map(|v| c.sd_after([v.x as f64, v.y as f64]));
        ensure!((after[0] - after[1]).abs() <= 2.0 * c.tol(s), "effects of the vector forms differ ({after:?}): {say}");
        Ok(if coll { "overlap" } else { "apart" })
    });
}

pub fn c03(run: &mut Run) {
    scope(run);
    run.assume(&format!("error bound of iterative pairs: {ITER_REL} x distance + {ITER_ABS} x combined size"));
    let w = World::new(run.tier, &|_| true);
    explore(run, &w, &|c| {
        let s = c.sd();
        if s <= c.band() {
            return Ok(if s < -c.band() { "overlap" } else { "touching" });
        }
        if let Ans::Maybe(d) = c.ask(Q::Dist)? {
            ensure!(d.is_some(), "distance_to found no distance, but the signed distance is {s:.7}");
            c.judge_vector("distance_to", d.unwrap(), s)?;
        }
        if let Ans::Both(f, v) = c.ask(Q::Sdfv)? {
            ensure!(!f, "sdfv reports a collision, but the signed distance is {s:.7}");
            c.judge_vector("sdfv", v, s)?;
        }
        Ok("apart")
    });
}

pub fn c04(run: &mut Run) {
    scope(run);
    run.assume(&format!("error bound of iterative pairs: {ITER_REL} x depth + {ITER_ABS} x combined size"));
    let w = World::new(run.tier, &|_| true);
    explore(run, &w, &|c| {
        let s = c.sd();
        if s >= -c.band() {
            return Ok(if s > c.band() { "apart" } else { "touching" });
        }
        if let Ans::Maybe(d) = c.ask(Q::Pen)? {
            ensure!(d.is_some(), "penetrates found no penetration, but the signed distance is {s:.7}");
            c.judge_vector("penetrates", d.unwrap(), s)?;
        }
        if let Ans::Both(f, v) = c.ask(Q::Sdfv)? {
            ensure!(f, "sdfv reports no collision, but the signed distance is {s:.7}");
            c.judge_vector("sdfv", v, s)?;
        }
        Ok("overlap")
    });
}

pub fn c05(run: &mut Run) {
    scope(run);
    let w = World::new(run.tier, &|p| p.has_sdf());
    let judge = |c: &Case| -> Result<(&'static str, f64), String> {
        let s = c.sd();
        let Ans::Num(x) = c.ask(Q::Sdf)? else { unreachable!() };
        ensure!(x.is_finite(), "sdf = {x}");
        ensure!((x as f64 - s).abs() <= c.tol(s), "sdf = {x:.7}, but the signed distance is {s:.7}");
        Ok((if s < 0.0 { "overlap" } else { "apart" }, x as f64))
    };
    for d in w.all() {
        let moves: &[usize] = if d.name == "grid" { &[3, 4] } else { &[] };
        let n = d.dims[d.dims.len() - 1];
        run.lattice_edges(&d.name, &d.dims, moves, &|ix| (d.case)(ix).describe(), &|ix| judge(&(d.case)(ix)), &|ix, _, a, b| {
            let step = w.grid_step(ix[0], n);
            let slack = 2.0 * (d.case)(ix).tol(0.0) + 1e-6 * step;
            if (a - b).abs() <= step + slack {
                Ok(())
            } else {
                Err(format!("sdf changes from {a} to {b} when the second shape moves by {step}"))
            }
        });
    }
}
