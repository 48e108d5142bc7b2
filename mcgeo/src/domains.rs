//! The finite spaces of query situations that the geometric properties are decided on.
use crate::scene::*;
use mckit::geo::Diff;
use mckit::Tier;
use std::f64::consts::TAU;

pub struct World {
    pub specs: Vec<(Spec, Spec)>,
    pub pairs: Vec<Box<dyn Pair>>,
    /// the pairs again with all dimensions multiplied by each of `factors`
    pub scaled: Vec<Vec<Box<dyn Pair>>>,
    pub rots: Vec<f32>,
    /// every shape against itself, one object in both parts
    selves: Vec<Box<dyn Pair>>,
    /// polygons on a small grid of points, in pairs
    small: Vec<Box<dyn Pair>>,
    /// long, flat and thin shapes, and shapes much larger than the other one
    proportions: Vec<Box<dyn Pair>>,
    /// a few pairs in every size from the least to the largest claimed
    sizes: Vec<Box<dyn Pair>>,
    /// diffs[pair][rot]: difference for a second shape rotated in place
    diffs: Vec<Vec<Diff>>,
    pub tier: Tier,
}

/// Angles that are almost none, a quarter of a turn or half a turn.
pub const NEAR_TURNS: [f32; 9] = [0.0, 0.003, -0.015, 0.04, 1.5748, 1.5508, -1.5608, 3.1316, -3.1396];
/// Scales that are almost one.
pub const NEAR_ONE: [f32; 4] = [1.03, 0.98, 1.004, 0.9993];
pub const FACTORS: [f32; 7] = [1e-3, 0.02, 0.3, 7.0, 100.0, 1500.0, 1e4];

/// Rotations of the second shape: a full turn in even steps (covering the symmetric and parallel cases), plus
/// ones in general position, negative and beyond a turn.
pub fn rotations(n: usize) -> Vec<f32> {
    let mut v: Vec<f32> = (0..n).map(|i| (TAU * i as f64 / n as f64) as f32).collect();
    v.extend([0.1, -0.7, 2.5, 7.0, -4.4, 1e-3]);
    v
}

impl World {
    pub fn new(tier: Tier, keep: &dyn Fn(&dyn Pair) -> bool) -> World {
        let mut specs = vec![];
        let mut pairs = vec![];
        for (x, y) in catalogue() {
            let p = pair(&x, &y).unwrap();
            if keep(&*p) {
                specs.push((x, y));
                pairs.push(p);
            }
        }
        let scaled = FACTORS
            .iter()
            .map(|&f| specs.iter().map(|(x, y)| pair(&x.scaled(f), &y.scaled(f)).unwrap()).collect())
            .collect();
        let rots = rotations(tier.pick(12, 24));
        let diffs = pairs
            .iter()
            .map(|p| rots.iter().map(|&a| Diff::new(p.ra(), &p.rb().place(&Spot { a, ..Spot::HOME }.sim()))).collect())
            .collect();
        let selves = solos().iter().filter_map(same).filter(|p| keep(&**p)).collect();
        let small = {
            let (x, y) = (small_polygons(4), small_polygons(tier.pick(3, 4)));
            let mut v = vec![];
            for (i, a) in x.iter().enumerate() {
                for (j, b) in y.iter().enumerate() {
                    let u = |s: &Spec| Spec::U(Box::new(s.clone()));
                    let p = match (i + j) % 3 {
                        0 => pair(&u(a), &u(b)),
                        _ => pair(a, b),
                    };
                    v.extend(p.filter(|p| keep(&**p)));
                }
            }
            v
        };
        let proportions = proportions(tier).iter().filter_map(|(a, b)| pair(a, b)).filter(|p| keep(&**p)).collect();
        let sizes = sizes(tier).iter().filter_map(|(a, b)| pair(a, b)).filter(|p| keep(&**p)).collect();
        World { small, proportions, sizes, selves, specs, pairs, scaled, rots, diffs, tier }
    }
}

/// Every convex polygon of three to `most` corners on a grid of 4 x 4 points that has the origin inside, listed in turn
/// around, the other way around and out of turn.
pub fn small_polygons(most: usize) -> Vec<Spec> {
    let pts: Vec<[f32; 2]> = (0..16).map(|i| [(i % 4) as f32 - 1.5, (i / 4) as f32 - 1.5]).collect();
    let cross = |o: [f32; 2], a: [f32; 2], b: [f32; 2]| (a[0] - o[0]) * (b[1] - o[1]) - (a[1] - o[1]) * (b[0] - o[0]);
    let mut v = vec![];
    for set in 0u32..1 << 16 {
        let n = set.count_ones() as usize;
        if n < 3 || n > most {
            continue;
        }
        let mut l: Vec<[f32; 2]> = (0..16).filter(|i| set >> i & 1 == 1).map(|i| pts[i]).collect();
        l.sort_by(|a, b| a[1].atan2(a[0]).total_cmp(&b[1].atan2(b[0])));
        if (0..n).any(|i| cross(l[i], l[(i + 1) % n], l[(i + 2) % n]) <= 0.0 || cross(l[i], l[(i + 1) % n], [0.0; 2]) <= 0.0) {
            continue;
        }
        l.rotate_left(v.len() % n);
        match v.len() % 3 {
            0 => (),
            1 => l.reverse(),
            _ => l.swap(0, n / 2),
        }
        v.push(Spec::poly(&format!("{l:?}"), &l));
    }
    v
}

/// Boxes, triangles and capsules from round to a thousand times longer than wide, against shapes down to a thousandth
/// of their size.
fn proportions(tier: Tier) -> Vec<(Spec, Spec)> {
    let n = tier.pick(8, 20);
    let shares: Vec<f32> = (0..n).map(|i| 10f32.powf(-3.0 * i as f32 / (n - 1) as f32)).collect();
    let mut v = vec![];
    for (i, &t) in shares.iter().enumerate() {
        let firsts = [
            Spec::Boxy(1.0, t),
            Spec::Boxy(t, 1.0),
            Spec::poly(&format!("flat{i}"), &[[-1.0, -0.3 * t], [1.1, -0.4 * t], [0.2, 0.7 * t]]),
            Spec::poly(&format!("tall{i}"), &[[0.5 * t, -1.0], [0.6 * t, 0.8], [-0.4 * t, 0.9], [-0.5 * t, -0.7]]),
            Spec::Cap(1.0, t),
        ];
        for (j, &q) in shares.iter().enumerate() {
            let mut seconds = vec![
                Spec::Disc(q),
                Spec::Boxy(q, 0.6 * q),
                Spec::poly(&format!("small{j}"), &[[0.1 * q, q], [-0.8 * q, -0.5 * q], [0.9 * q, -0.6 * q]]),
                Spec::Boxy(0.9, 0.9 * q),
            ];
            if j == 0 {
                seconds.push(Spec::Pt);
            }
            for a in &firsts {
                for b in &seconds {
                    v.push((a.clone(), b.clone()));
                    v.push((b.clone(), a.clone()));
                }
            }
            if i == 0 {
                v.push((Spec::Disc(q), Spec::Disc(1.0)));
                v.push((Spec::Disc(1.0), Spec::Disc(q)));
            }
        }
    }
    v
}

/// One pair of shapes of each supported combination, in sizes a fixed factor apart.
fn sizes(tier: Tier) -> Vec<(Spec, Spec)> {
    let shapes = [
        Spec::Pt,
        Spec::Disc(0.8),
        Spec::Boxy(1.1, 0.4),
        Spec::poly("pentagon", &[[1.0, 0.1], [0.3, 0.9], [-0.9, 0.5], [-0.7, -0.6], [0.4, -0.8]]),
        Spec::Cap(0.7, 0.2),
    ];
    let n = tier.pick(60, 240);
    let mut v = vec![];
    for i in 0..n {
        let k = 10f32.powf(-4.0 + 8.0 * i as f32 / n as f32);
        for a in &shapes {
            for b in &shapes {
                v.push((a.scaled(k), b.scaled(k)));
            }
        }
    }
    v
}

pub struct Dom<'a> {
    pub name: String,
    pub dims: Vec<usize>,
    pub case: Box<dyn Fn(&[usize]) -> Case<'a> + Sync + 'a>,
}

/// The position along direction `th` at which the second shape of `d` (placed at the origin) has gap `g`.
/// If it overlaps deeper than that even at the origin (or everywhere), the origin is returned.
pub fn along(d: &Diff, th: f64, g: f64, reach: f64) -> [f64; 2] {
    let u = [th.cos(), th.sin()];
    let f = |t: f64| d.sd_after([-t * u[0], -t * u[1]]) - g;
    let (mut lo, mut hi) = (0.0, 2.0 * reach + g.abs());
    if f(lo) >= 0.0 {
        return [0.0, 0.0];
    }
    for _ in 0..44 {
        let m = 0.5 * (lo + hi);
        if f(m) < 0.0 {
            lo = m
        } else {
            hi = m
        }
    }
    [hi * u[0], hi * u[1]]
}

/// Gaps relative to the combined size, from deep overlap to far apart.
pub const GAPS: [f64; 16] =
    [-0.6, -0.3, -0.1, -0.03, -0.008, -0.002, -0.0005, 0.0005, 0.002, 0.008, 0.05, 0.3, 2.0, 40.0, 900.0, 2e4];
const CORNER_GAPS: [f64; 7] = [-0.3, -0.02, -1e-3, 1e-3, 0.02, 0.3, 4.0];
const FEW_GAPS: [f64; 6] = [-0.3, -0.04, -0.003, 0.003, 0.05, 1.5];

/// Directions: even steps plus ones in general position.
pub fn direction(i: usize, n: usize) -> f64 {
    // the irrational phase of every second direction avoids symmetric placements, the others hit them
    TAU * (i as f64) / n as f64 + if i % 2 == 1 { 0.0371 } else { 0.0 }
}

fn f32p(p: [f64; 2]) -> [f32; 2] {
    [p[0] as f32, p[1] as f32]
}

/// Poses of the first collider (and of the scene) for the world forms.
pub fn poses(kind: Kind) -> Vec<Spot> {
    let s = |a, k, x, y| Spot { a, k, p: [x, y] };
    match kind {
        Kind::Full => vec![
            s(0.0, 1.0, 0.0, 0.0),
            s(0.9, 1.0, 3.0, -2.0),
            s(-2.2, 1.0, -25.0, 10.0),
            s(3.1415927, 0.5, 1.0, 7.0),
            s(4.9, 2.5, -6.0, -1.5),
            s(1.5707964, 1.0, 0.0, 0.0),
            s(8.1, 12.0, 150.0, 90.0),
        ],
        Kind::Axis => vec![
            s(0.0, 1.0, 0.0, 0.0),
            s(0.0, 2.0, 3.0, -2.0),
            s(0.0, 0.4, -25.0, 10.0),
            s(0.0, 9.0, 1.0, 70.0),
        ],
        _ => vec![s(0.0, 1.0, 0.0, 0.0), s(0.0, 1.0, 3.0, -2.0), s(0.0, 1.0, -125.0, 50.0)],
    }
}

impl World {
    pub fn grid(&self) -> Dom<'_> {
        let n = self.tier.pick(17, 49);
        Dom {
            name: "grid".into(),
            dims: vec![self.pairs.len(), self.rots.len(), 2, n, n],
            case: Box::new(move |ix| {
                let p = &*self.pairs[ix[0]];
                Case::shared(p, Kind::Full, self.grid_spot(ix, n), &self.diffs[ix[0]][ix[1]])
            }),
        }
    }
    fn grid_spot(&self, ix: &[usize], n: usize) -> Spot {
        let step = self.grid_step(ix[0], n);
        let off = [0.0, 0.371][ix[2]];
        let at = |i: usize, o: f64| ((i as f64 - (n / 2) as f64 + o) * step) as f32;
        Spot { a: self.rots[ix[1]], k: 1.0, p: [at(ix[3], off), at(ix[4], off * 0.7)] }
    }
    pub fn grid_step(&self, pair: usize, n: usize) -> f64 {
        1.2 * self.pairs[pair].size().max(1e-3) / (n / 2) as f64
    }
    pub fn contact(&self) -> Dom<'_> {
        let nth = self.tier.pick(16, 48);
        Dom {
            name: "contact".into(),
            dims: vec![self.pairs.len(), self.rots.len(), nth, GAPS.len()],
            case: Box::new(move |ix| {
                let p = &*self.pairs[ix[0]];
                let d = &self.diffs[ix[0]][ix[1]];
                let size = p.size().max(1e-3);
                let at = along(d, direction(ix[2], nth), GAPS[ix[3]] * size, size);
                Case::shared(p, Kind::Full, Spot { a: self.rots[ix[1]], k: 1.0, p: f32p(at) }, d)
            }),
        }
    }
    /// Shapes of other orders of magnitude.
    pub fn magnitudes(&self) -> Dom<'_> {
        let nth = self.tier.pick(6, 16);
        let rots: Vec<f32> = if self.tier == Tier::Quick { vec![0.0, 0.6, 1.5707964, -2.0] } else { rotations(8) };
        Dom {
            name: "magnitudes".into(),
            dims: vec![self.pairs.len(), FACTORS.len(), rots.len(), nth, FEW_GAPS.len()],
            case: Box::new(move |ix| {
                let p = &*self.scaled[ix[1]][ix[0]];
                let spot = Spot { a: rots[ix[2]], ..Spot::HOME };
                let d = Diff::new(p.ra(), &p.rb().place(&spot.sim()));
                let size = p.size().max(1e-3 * FACTORS[ix[1]] as f64);
                let at = along(&d, direction(ix[3], nth), FEW_GAPS[ix[4]] * size, size);
                Case::relative(p, Kind::Full, Spot { p: f32p(at), ..spot })
            }),
        }
    }
    /// Relative placements that carry a scale, in every transform type that can.
    pub fn relscale(&self) -> Dom<'_> {
        let nth = self.tier.pick(6, 16);
        let list: Vec<(Kind, f32, f32)> = {
            let mut l = vec![];
            for k in [0.05f32, 0.5, 2.0, 30.0] {
                for a in [0.0f32, 0.8, -1.5707964, 2.9] {
                    l.push((Kind::Full, a, k));
                }
                l.push((Kind::Axis, 0.0, k));
            }
            l.push((Kind::Axis, 0.0, 1.0));
            l.push((Kind::Vector, 0.0, 1.0));
            l.push((Kind::Translate, 0.0, 1.0));
            l
        };
        Dom {
            name: "relative-scale".into(),
            dims: vec![self.pairs.len(), list.len(), nth, FEW_GAPS.len()],
            case: Box::new(move |ix| {
                let p = &*self.pairs[ix[0]];
                let (kind, a, k) = list[ix[1]];
                let spot = Spot { a, k, p: [0.0; 2] };
                let d = Diff::new(p.ra(), &p.rb().place(&spot.sim()));
                let size = (p.ra().size() + k as f64 * p.rb().size()).max(1e-3);
                let at = along(&d, direction(ix[2], nth), FEW_GAPS[ix[3]] * size, size);
                Case::relative(p, kind, Spot { p: f32p(at), ..spot })
            }),
        }
    }
    /// World queries: pose of the first collider x form x orientation and scale of the second x direction x gap.
    pub fn world(&self, kind: Kind) -> Dom<'_> {
        let nth = self.tier.pick(5, 12);
        let ps = poses(kind);
        let bs: Vec<(f32, f32)> = match kind {
            Kind::Full => vec![(0.0, 1.0), (1.1, 1.0), (-2.6, 0.5), (5.5, 3.0)],
            Kind::Axis => vec![(0.0, 1.0), (0.0, 0.3), (0.0, 4.0)],
            _ => vec![(0.0, 1.0)],
        };
        Dom {
            name: format!("world-{kind:?}"),
            dims: vec![self.pairs.len(), ps.len(), 3, bs.len(), nth, FEW_GAPS.len()],
            case: Box::new(move |ix| {
                let p = &*self.pairs[ix[0]];
                let (ta, b) = (ps[ix[1]], bs[ix[3]]);
                let (ra, rb) = (
                    p.ra().place(&Spot { p: [0.0; 2], ..ta }.sim()),
                    p.rb().place(&Spot { a: b.0, k: b.1, p: [0.0; 2] }.sim()),
                );
                let d = Diff::new(&ra, &rb);
                let size = (ra.size() + rb.size()).max(1e-3);
                let at = along(&d, direction(ix[4], nth), FEW_GAPS[ix[5]] * size, size);
                let tb = Spot { a: b.0, k: b.1, p: [(at[0] + ta.p[0] as f64) as f32, (at[1] + ta.p[1] as f64) as f32] };
                Case::world(p, kind, ix[2] as u8, ta, tb)
            }),
        }
    }
    /// World queries with rotations that are almost special ones and scales that are almost one.
    pub fn nearly(&self) -> Dom<'_> {
        let nth = self.tier.pick(4, 10);
        let mut list: Vec<(Spot, f32, f32)> = vec![];
        let spot = |a, k| Spot { a, k, p: [0.5 * a, -0.25] };
        for own in NEAR_TURNS {
            for b in NEAR_TURNS {
                list.push((spot(own, 1.0), own + b, 1.0));
            }
            for k in NEAR_ONE {
                list.push((spot(own, 1.0), own, k));
                list.push((spot(own, k), own, k));
                list.push((spot(0.0, k), own, 1.0));
            }
        }
        for k in NEAR_ONE {
            for l in NEAR_ONE {
                list.push((spot(0.7, k), -0.2, l));
            }
        }
        Dom {
            name: "nearly".into(),
            dims: vec![self.pairs.len(), list.len(), nth, FEW_GAPS.len()],
            case: Box::new(move |ix| {
                let p = &*self.pairs[ix[0]];
                let (ta, a, k) = list[ix[1]];
                let (ra, rb) = (p.ra().place(&Spot { p: [0.0; 2], ..ta }.sim()), p.rb().place(&Spot { a, k, p: [0.0; 2] }.sim()));
                let d = Diff::new(&ra, &rb);
                let size = (ra.size() + rb.size()).max(1e-3);
                let at = along(&d, direction(ix[2], nth), FEW_GAPS[ix[3]] * size, size);
                let tb = Spot { a, k, p: [(at[0] + ta.p[0] as f64) as f32, (at[1] + ta.p[1] as f64) as f32] };
                Case::world(p, Kind::Full, (ix[1] % 3) as u8, ta, tb)
            }),
        }
    }
    /// Corner against corner and corner against edge: around the corners of the difference, across and just beyond the
    /// directions in which the corner is the nearest feature.
    pub fn corners(&self) -> Dom<'_> {
        let nc = self.tier.pick(6, 16);
        let across: Vec<f64> = self.tier.pick(vec![-0.04, 0.0, 0.03, 0.5, 0.97, 1.0], vec![-0.3, -0.04, -1e-3, 0.0, 1e-3, 0.03, 0.2, 0.5, 0.8, 0.97, 1.0, 1.04]);
        let rots: Vec<usize> = (0..self.rots.len()).step_by(self.tier.pick(4, 1)).collect();
        Dom {
            name: "corners".into(),
            dims: vec![self.pairs.len(), rots.len(), nc, across.len(), CORNER_GAPS.len()],
            case: Box::new(move |ix| {
                let p = &*self.pairs[ix[0]];
                let k = rots[ix[1]];
                let d = &self.diffs[ix[0]][k];
                let n = d.corners();
                // a corner for each share of the turn
                let i = if n <= nc { ix[2] % n } else { ix[2] * n / nc };
                let (c, cone, r) = d.corner(i);
                let extra = if n < nc { 0.21 * (ix[2] / n) as f64 } else { 0.0 };
                let th = cone[0] + (across[ix[3]] + extra) * (cone[1] - cone[0]);
                let l = r + CORNER_GAPS[ix[4]] * p.size().max(1e-3);
                Case::shared(p, Kind::Full, Spot { a: self.rots[k], k: 1.0, p: f32p([c[0] + l * th.cos(), c[1] + l * th.sin()]) }, d)
            }),
        }
    }
    /// Origins that almost coincide, relative to all of the scene and to the smaller of the shapes.
    pub fn concentric(&self) -> Dom<'_> {
        let nth = self.tier.pick(12, 40);
        let rots: Vec<usize> = (0..self.rots.len()).step_by(self.tier.pick(5, 2)).collect();
        let off = [0.1, 0.03, 8e-3, 2e-3, 4e-4, 5e-5, 3e-6, 1e-8];
        Dom {
            name: "concentric".into(),
            dims: vec![self.pairs.len(), rots.len(), nth, off.len(), 2],
            case: Box::new(move |ix| {
                let p = &*self.pairs[ix[0]];
                let k = rots[ix[1]];
                let small = p.ra().size().min(p.rb().size());
                let l = off[ix[3]] * if ix[4] == 0 || small == 0.0 { p.size().max(1e-3) } else { small };
                let th = direction(ix[2], nth);
                Case::shared(p, Kind::Full, Spot { a: self.rots[k], k: 1.0, p: f32p([l * th.cos(), l * th.sin()]) }, &self.diffs[ix[0]][k])
            }),
        }
    }
    /// Along rays, in steps of a few percent of the gap: from the deepest overlap to far apart.
    pub fn rays(&self) -> Dom<'_> {
        let (nr, n) = (self.tier.pick(3, 12), self.tier.pick(160usize, 600));
        // the first third: overlaps down to a ten-thousandth of the size; the others: gaps from there on
        let gap = |i: usize, n: usize| {
            let third = n / 3;
            if i < third {
                -(10f64.powf(-4.0 * i as f64 / third as f64))
            } else {
                10f64.powf(-4.0 + 7.0 * (i - third) as f64 / (n - third) as f64)
            }
        };
        Dom {
            name: "rays".into(),
            dims: vec![self.pairs.len(), nr, n],
            case: Box::new(move |ix| {
                let p = &*self.pairs[ix[0]];
                let k = (ix[0] * 5 + ix[1] * 7) % self.rots.len();
                let d = &self.diffs[ix[0]][k];
                let size = p.size().max(1e-3);
                let th = TAU * (ix[1] as f64 + 0.137 * (ix[0] % 7) as f64) / nr as f64 + 0.011;
                let at = along(d, th, gap(ix[2], n) * size, size);
                Case::shared(p, Kind::Full, Spot { a: self.rots[k], k: 1.0, p: f32p(at) }, d)
            }),
        }
    }
    /// One object against itself: relative placements in every transform type, world placements, and twice the same one.
    pub fn oneself(&self) -> Dom<'_> {
        let nth = self.tier.pick(6, 16);
        let home = Spot::HOME;
        let mut ways: Vec<(Kind, Option<(u8, Spot)>, Spot)> = vec![];
        for &kind in &KINDS {
            let turns: &[(f32, f32)] = match kind {
                Kind::Full => &[(0.0, 1.0), (0.6, 1.0), (1.5707964, 1.0), (3.1415927, 1.0), (-2.2, 1.0), (0.0, 0.5), (1.9, 3.0)],
                Kind::Axis => &[(0.0, 1.0), (0.0, 0.5), (0.0, 3.0)],
                _ => &[(0.0, 1.0)],
            };
            for &(a, k) in turns {
                let b = Spot { a, k, ..home };
                ways.push((kind, None, b));
                for ta in poses(kind).into_iter().take(4) {
                    ways.extend([(kind, Some((0, ta)), b), (kind, Some((3, ta)), b), (kind, Some((3, ta)), ta)]);
                }
            }
        }
        Dom {
            name: "oneself".into(),
            dims: vec![self.selves.len(), ways.len(), nth, FEW_GAPS.len() + 1],
            case: Box::new(move |ix| {
                let p = &*self.selves[ix[0]];
                let (kind, world, b) = &ways[ix[1]];
                let ta = world.map_or(home, |w| w.1);
                let rb = Spot { p: [0.0; 2], ..*b };
                let d = Diff::new(&p.ra().place(&Spot { p: [0.0; 2], ..ta }.sim()), &p.rb().place(&rb.sim()));
                let size = (p.ra().size() * ta.k as f64 + p.rb().size() * b.k as f64).max(1e-3);
                // the last gap: in the very place
                let at = if ix[3] == FEW_GAPS.len() { [0.0; 2] } else { along(&d, direction(ix[2], nth), FEW_GAPS[ix[3]] * size, size) };
                let tb = Spot { p: [(at[0] + ta.p[0] as f64) as f32, (at[1] + ta.p[1] as f64) as f32], ..*b };
                match world {
                    None => Case::relative(p, *kind, tb),
                    Some((form, ta)) => Case::world(p, *kind, *form, *ta, tb),
                }
            }),
        }
    }
    /// Every small polygon against every other (quick: every triangle), not turned and turned.
    pub fn small(&self) -> Dom<'_> {
        let nth = self.tier.pick(3, 5);
        let gaps = [-0.25, -0.02, 0.02, 0.6];
        Dom {
            name: "small-polygons".into(),
            dims: vec![self.small.len(), 2, nth, gaps.len()],
            case: Box::new(move |ix| {
                let p = &*self.small[ix[0]];
                let a = if ix[1] == 0 { 0.0 } else { self.rots[(ix[0] * 7 + ix[2]) % self.rots.len()] };
                let spot = Spot { a, ..Spot::HOME };
                let d = Diff::new(p.ra(), &p.rb().place(&spot.sim()));
                let th = TAU * (ix[2] as f64 + (ix[0] % 24) as f64 / 24.0) / nth as f64 + if ix[3] % 2 == 1 { 0.0371 } else { 0.0 };
                let at = along(&d, th, gaps[ix[3]] * p.size(), p.size());
                Case::relative(p, Kind::Full, Spot { p: f32p(at), ..spot })
            }),
        }
    }
    /// Extreme proportions, of each shape and of one to the other; gaps relative to all of the scene and to its least part.
    pub fn proportions(&self) -> Dom<'_> {
        let nth = self.tier.pick(8, 24);
        let rots: Vec<f32> = self.tier.pick(vec![0.0, 0.3], vec![0.0, 0.3, 1.5707964, -2.0, 3.13]);
        Dom {
            name: "proportions".into(),
            dims: vec![self.proportions.len(), rots.len(), nth, FEW_GAPS.len()],
            case: Box::new(move |ix| {
                let p = &*self.proportions[ix[0]];
                let spot = Spot { a: rots[ix[1]], ..Spot::HOME };
                let d = Diff::new(p.ra(), &p.rb().place(&spot.sim()));
                let th = direction(ix[2], nth) + 0.01 * (ix[0] % 7) as f64;
                let unit = if ix[2] % 2 == 0 { p.size() } else { p.ra().size().min(p.rb().size()).max(1e-3) };
                let at = along(&d, th, FEW_GAPS[ix[3]] * unit, p.size());
                Case::relative(p, Kind::Full, Spot { p: f32p(at), ..spot })
            }),
        }
    }
    /// Every size.
    pub fn sizes(&self) -> Dom<'_> {
        let nth = self.tier.pick(5, 12);
        Dom {
            name: "sizes".into(),
            dims: vec![self.sizes.len(), 2, nth, FEW_GAPS.len()],
            case: Box::new(move |ix| {
                let p = &*self.sizes[ix[0]];
                let spot = Spot { a: [0.0, 0.7][ix[1]], ..Spot::HOME };
                let d = Diff::new(p.ra(), &p.rb().place(&spot.sim()));
                let at = along(&d, direction(ix[2], nth), FEW_GAPS[ix[3]] * p.size(), p.size());
                Case::relative(p, Kind::Full, Spot { p: f32p(at), ..spot })
            }),
        }
    }
    pub fn all(&self) -> Vec<Dom<'_>> {
        let mut v = vec![self.grid(), self.contact(), self.rays(), self.corners(), self.concentric(), self.magnitudes(), self.relscale(), self.nearly(), self.oneself(), self.proportions(), self.sizes()];
        v.extend(KINDS.iter().map(|&k| self.world(k)));
        if !self.small.is_empty() {
            v.push(self.small());
        }
        v
    }
}
