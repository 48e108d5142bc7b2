//! Reference model: exact (f64) planar geometry of convex shapes.
//!
//! A shape is a convex polygon swept by a disc; two shapes intersect iff the origin lies in the
//! Minkowski difference, whose signed distance to the origin is the separation of the shapes.
pub type P = [f64; 2];

pub fn add(a: P, b: P) -> P {
    [a[0] + b[0], a[1] + b[1]]
}
pub fn sub(a: P, b: P) -> P {
    [a[0] - b[0], a[1] - b[1]]
}
pub fn dot(a: P, b: P) -> f64 {
    a[0] * b[0] + a[1] * b[1]
}
pub fn cross(a: P, b: P) -> f64 {
    a[0] * b[1] - a[1] * b[0]
}
pub fn len(a: P) -> f64 {
    a[0].hypot(a[1])
}

/// Convex hull, counter-clockwise, without collinear points.
pub fn hull(mut p: Vec<P>) -> Vec<P> {
    p.sort_by(|a, b| a.partial_cmp(b).unwrap());
    p.dedup();
    if p.len() < 3 {
        return p;
    }
    let turn = |o: P, a: P, b: P| cross(sub(a, o), sub(b, o));
    let mut h: Vec<P> = vec![];
    for _ in 0..2 {
        let st = h.len();
        for &q in p.iter() {
            while h.len() >= st + 2 && turn(h[h.len() - 2], h[h.len() - 1], q) <= 0.0 {
                h.pop();
            }
            h.push(q);
        }
        h.pop();
        p.reverse();
    }
    h
}

/// Minkowski sum of two convex hulls (each as returned by `hull`).
pub fn minkowski(a: &[P], b: &[P]) -> Vec<P> {
    if a.len() == 1 {
        return b.iter().map(|&q| add(q, a[0])).collect();
    }
    if b.len() == 1 {
        return a.iter().map(|&q| add(q, b[0])).collect();
    }
    let low = |h: &[P]| {
        (0..h.len())
            .min_by(|&i, &j| (h[i][1], h[i][0]).partial_cmp(&(h[j][1], h[j][0])).unwrap())
            .unwrap()
    };
    let (i0, j0) = (low(a), low(b));
    let mut out = Vec::with_capacity(a.len() + b.len());
    let (mut i, mut j) = (0, 0);
    while i < a.len() || j < b.len() {
        let (pa, pb) = (a[(i0 + i) % a.len()], b[(j0 + j) % b.len()]);
        out.push(add(pa, pb));
        let ea = sub(a[(i0 + i + 1) % a.len()], pa);
        let eb = sub(b[(j0 + j + 1) % b.len()], pb);
        if i == a.len() {
            j += 1;
        } else if j == b.len() {
            i += 1;
        } else {
            let (ha, hb) = (upper(ea), upper(eb));
            let c = if ha != hb { if ha { 1.0 } else { -1.0 } } else { cross(ea, eb) };
            if c > 0.0 {
                i += 1;
            } else if c < 0.0 {
                j += 1;
            } else {
                i += 1;
                j += 1;
            }
        }
    }
    out
}

fn upper(e: P) -> bool {
    e[1] > 0.0 || (e[1] == 0.0 && e[0] > 0.0)
}

/// Signed distance of a point to a convex polygon (CCW; points and segments allowed).
pub fn sd_point(h: &[P], q: P) -> f64 {
    let n = h.len();
    if n == 1 {
        return len(sub(h[0], q));
    }
    let (mut best, mut inside, mut area) = (f64::INFINITY, f64::NEG_INFINITY, false);
    for i in 0..n {
        let (a, b) = (h[i], h[(i + 1) % n]);
        let d = sub(b, a);
        let l2 = dot(d, d);
        if l2 == 0.0 {
            continue;
        }
        let aq = sub(q, a);
        let t = (dot(aq, d) / l2).clamp(0.0, 1.0);
        best = best.min(len([aq[0] - t * d[0], aq[1] - t * d[1]]));
        // outward normal of a CCW polygon is (d.y, -d.x)
        inside = inside.max((aq[0] * d[1] - aq[1] * d[0]) / l2.sqrt());
        area |= n >= 3;
    }
    if area && inside < 0.0 {
        inside
    } else {
        best
    }
}

#[derive(Clone, Debug)]
pub struct Ref {
    /// convex hull, CCW
    pub v: Vec<P>,
    pub r: f64,
}

/// Similarity transform: rotate by (c, s), scale by k, translate by p.
#[derive(Clone, Copy, Debug)]
pub struct Sim {
    pub c: f64,
    pub s: f64,
    pub k: f64,
    pub p: P,
}

impl Sim {
    pub const ID: Sim = Sim { c: 1.0, s: 0.0, k: 1.0, p: [0.0, 0.0] };
    pub fn new(angle: f64, k: f64, p: P) -> Sim {
        Sim { c: angle.cos(), s: angle.sin(), k, p }
    }
    pub fn lin(&self, v: P) -> P {
        [self.k * (self.c * v[0] - self.s * v[1]), self.k * (self.s * v[0] + self.c * v[1])]
    }
    pub fn rot(&self, v: P) -> P {
        [self.c * v[0] - self.s * v[1], self.s * v[0] + self.c * v[1]]
    }
    pub fn apply(&self, v: P) -> P {
        add(self.lin(v), self.p)
    }
    pub fn then(&self, inner: &Sim) -> Sim {
        // self ∘ inner
        Sim {
            c: self.c * inner.c - self.s * inner.s,
            s: self.s * inner.c + self.c * inner.s,
            k: self.k * inner.k,
            p: self.apply(inner.p),
        }
    }
    pub fn inverse(&self) -> Sim {
        let i = Sim { c: self.c, s: -self.s, k: 1.0 / self.k, p: [0.0, 0.0] };
        let q = i.lin(self.p);
        Sim { p: [-q[0], -q[1]], ..i }
    }
}

impl Ref {
    pub fn new(points: &[P], r: f64) -> Ref {
        Ref { v: hull(points.to_vec()), r }
    }
    pub fn place(&self, t: &Sim) -> Ref {
        Ref { v: self.v.iter().map(|&p| t.apply(p)).collect(), r: self.r * t.k }
    }
    /// Largest distance from the origin.
    pub fn size(&self) -> f64 {
        self.v.iter().map(|&p| len(p)).fold(0.0, f64::max) + self.r
    }
    /// Signed distance of a point to the shape.
    pub fn point(&self, p: P) -> f64 {
        sd_point(&self.v, p) - self.r
    }
    pub fn support(&self, d: P) -> f64 {
        self.v.iter().map(|&p| dot(p, d)).fold(f64::NEG_INFINITY, f64::max) + self.r * len(d)
    }
}

/// Minkowski difference of two placed shapes.
pub struct Diff {
    h: Vec<P>,
    r: f64,
}

impl Diff {
    pub fn new(a: &Ref, b: &Ref) -> Diff {
        // negation is a half turn, so the hull stays CCW
        let nb: Vec<P> = b.v.iter().map(|p| [-p[0], -p[1]]).collect();
        Diff { h: minkowski(&a.v, &nb), r: a.r + b.r }
    }
    /// Signed distance between the shapes after moving the first one by `v`.
    pub fn sd_after(&self, v: P) -> f64 {
        sd_point(&self.h, [-v[0], -v[1]]) - self.r
    }
    pub fn sd(&self) -> f64 {
        self.sd_after([0.0, 0.0])
    }
    /// Corner `i` of the difference (cyclically) with the outward normals of the two edges that meet there, and the
    /// radius beyond the corner.
    pub fn corner(&self, i: usize) -> (P, [f64; 2], f64) {
        let n = self.h.len();
        let (a, b, c) = (self.h[(i + n - 1) % n], self.h[i % n], self.h[(i + 1) % n]);
        let normal = |e: P| (-e[0]).atan2(e[1]);
        if n == 1 {
            return (b, [0.0, std::f64::consts::TAU], self.r);
        }
        let from = normal(sub(b, a));
        let turn = (normal(sub(c, b)) - from).rem_euclid(std::f64::consts::TAU);
        (b, [from, from + turn], self.r)
    }
    pub fn corners(&self) -> usize {
        self.h.len()
    }
    /// Largest extent along the unit vector `d`.
    pub fn support(&self, d: P) -> f64 {
        self.h.iter().map(|&p| dot(p, d)).fold(f64::NEG_INFINITY, f64::max) + self.r
    }
    /// Signed distance of a point to the difference.
    pub fn point(&self, p: P) -> f64 {
        sd_point(&self.h, p) - self.r
    }
}

#[cfg(test)]
mod tests {
    use super::*;
    #[test]
    fn minkowski_agrees_with_pairwise_hull() {
        let shapes: Vec<Vec<P>> = vec![
            vec![[0.0, 0.0]],
            vec![[-1.0, 0.0], [1.0, 0.0]],
            vec![[-1.0, -1.0], [1.0, -1.0], [-1.0, 2.0]],
            vec![[-1.0, -1.0], [1.0, -1.0], [1.0, 1.0], [-1.0, 1.0]],
            (0..7).map(|i| [(i as f64).cos() * 2.0, (i as f64).sin()]).collect(),
        ];
        for a in &shapes {
            for b in &shapes {
                for k in 0..12 {
                    let t = Sim::new(k as f64 * 0.5236, 1.0, [0.3 * k as f64, -0.2]);
                    let (ra, rb) = (Ref::new(a, 0.0), Ref::new(b, 0.0).place(&t));
                    let d = Diff::new(&ra, &rb);
                    let mut all = vec![];
                    for p in &ra.v {
                        for q in &rb.v {
                            all.push(sub(*p, *q));
                        }
                    }
                    let h = hull(all);
                    for x in -6..=6 {
                        for y in -6..=6 {
                            let q = [x as f64 * 0.45, y as f64 * 0.45];
                            let (m, n) = (sd_point(&d.h, q), sd_point(&h, q));
                            assert!((m - n).abs() < 1e-9, "{a:?} {b:?} {k} {q:?} {m} {n}");
                        }
                    }
                }
            }
        }
    }
}
