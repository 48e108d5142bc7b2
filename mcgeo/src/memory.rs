//! Histories of changes and questions: an answer depends on the shapes and placement as they are now, not on what was
//! asked, or was there, before. Part of C14 (queries) and C09 (support points).
use auburn::col2d::*;
use mckit::{ensure, lib, Run};

const POLYS: [&[[f32; 2]]; 4] = [
    &[[-1.0, -0.8], [1.1, -0.9], [0.9, 1.0], [-1.2, 0.7]],
    // one point moved
    &[[-1.0, -0.8], [1.1, -0.9], [1.6, 1.5], [-1.2, 0.7]],
    // the same points from another one on
    &[[1.1, -0.9], [0.9, 1.0], [-1.2, 0.7], [-1.0, -0.8]],
    &[[-1.0, -0.8], [0.9, -0.7], [0.1, 1.4]],
];
const BOXES: [[f32; 2]; 2] = [[0.6, 0.4], [0.4, 0.6]];
const PLACES: [([f32; 2], f32); 5] =
    [([1.3, 0.4], 0.3), ([1.3, 0.40001], 0.3), ([1.3, 0.4], 0.9), ([-3.1, 0.2], 0.3), ([0.1, -0.2], 2.0)];
const CHANGES: usize = POLYS.len() + BOXES.len() + PLACES.len();
const QUESTIONS: usize = 5 * 4 + 3;

struct Scene {
    p: Poly2d,
    q: Poly2d,
    u: Shape2d,
    b: Box2d,
    c: Ball,
    t: Transform2d,
    home: Transform2d,
}

fn points(i: usize) -> impl Iterator<Item = Vec2> {
    POLYS[i].iter().map(|p| Vec2::from(*p))
}

impl Scene {
    fn new(s: [usize; 3]) -> Scene {
        let mut x = Scene {
            p: Poly2d { points: Vec::with_capacity(8) },
            q: Poly2d::new(&[Vec2::new(-0.5, -0.6), Vec2::new(0.7, -0.3), Vec2::new(0.2, 0.8)]),
            u: Shape2d::Poly2d(Poly2d { points: Vec::with_capacity(8) }),
            b: Box2d::default(),
            c: Ball::with_radius(0.5),
            t: Transform2d::default(),
            home: Transform2d::default(),
        };
        (0..3).for_each(|k| x.change(k, s[k]));
        x
    }
    /// in place, as a game would
    fn change(&mut self, what: usize, to: usize) {
        match what {
            0 => {
                let Shape2d::Poly2d(u) = &mut self.u else { unreachable!() };
                for v in [&mut self.p.points, &mut u.points] {
                    v.clear();
                    v.extend(points(to));
                }
            }
            1 => self.b.halfsize = Vec2::from(BOXES[to]),
            _ => {
                self.t.pos = Vec2::from(PLACES[to].0);
                self.t.rot = Rotor2d::from_angle(PLACES[to].1);
            }
        }
    }
    fn ask(&self, q: usize) -> String {
        macro_rules! form {
            ($a:expr, $b:expr, $f:expr) => {{
                let (a, b) = (Collider2d::new($a, &self.home), Collider2d::new($b, &self.t));
                match $f {
                    0 => format!("{:?}", a.collides(b)),
                    1 => format!("{:?}", a.penetrates(b)),
                    2 => format!("{:?}", a.distance_to(b)),
                    _ => format!("{:?}", a.sdfv(b)),
                }
            }};
        }
        match (q / 4, q % 4) {
            (0, f) => form!(&self.p, &self.q, f),
            (1, f) => form!(&self.b, &self.p, f),
            (2, f) => form!(&self.u, &self.u, f),
            (3, f) => form!(&self.b, &self.b, f),
            (4, f) => form!(&self.b, &self.c, f),
            (_, 0) => format!("{:?}", Collider2d::new(&self.b, &self.home).sdf(Collider2d::new(&self.c, &self.t))),
            (_, 1) => format!("{:?}", self.p.extreme_point(Vec2::new(0.3, 1.0))),
            _ => format!("{:?}", self.p.symmetric_bounding_box().halfsize),
        }
    }
}

fn question(q: usize) -> String {
    let pairs = ["polygon v polygon", "box v polygon", "enum v enum", "box v box", "box v ball"];
    let forms = ["collides", "penetrates", "distance_to", "sdfv"];
    match q / 4 {
        5 => ["sdf of box v ball", "extreme_point of the polygon", "bounding box of the polygon"][q % 4].into(),
        k => format!("{} of {}", forms[q % 4], pairs[k]),
    }
}

fn change(op: usize) -> (usize, usize) {
    match op {
        o if o < POLYS.len() => (0, o),
        o if o < POLYS.len() + BOXES.len() => (1, o - POLYS.len()),
        o => (2, o - POLYS.len() - BOXES.len()),
    }
}

/// On a thread of its own, so that nothing is left over from other histories.
fn alone<R: Send>(f: impl FnOnce() -> R + Send) -> R {
    std::thread::scope(|s| s.spawn(f).join().expect("panicked outside of the code under test"))
}

/// Short histories each on a thread of their own; of longer ones, too many for that, only those that go wrong.
fn judge(own_thread: bool, f: impl Fn() -> Result<(), String> + Sync) -> Result<(), String> {
    if own_thread {
        return alone(&f);
    }
    f().map_err(|e| alone(&f).err().unwrap_or(format!("{e} (after other histories on the same thread)")))
}

/// C14: every sequence of changes in place and questions; each question answered as if asked first.
pub fn queries(run: &mut Run) {
    let states: Vec<[usize; 3]> = (0..POLYS.len() * BOXES.len() * PLACES.len())
        .map(|i| [i / (BOXES.len() * PLACES.len()), i / PLACES.len() % BOXES.len(), i % PLACES.len()])
        .collect();
    let fresh: Vec<Vec<Result<String, String>>> = states
        .iter()
        .map(|s| (0..QUESTIONS).map(|q| alone(|| lib("query", || Scene::new(*s).ask(q)))).collect())
        .collect();
    let (depth, depth_alone) = (run.tier.pick(4, 5), run.tier.pick(3, 4));
    run.histories(
        "memory",
        CHANGES + QUESTIONS,
        depth,
        &|h| {
            let name = |op: usize| match op {
                o if o < CHANGES => format!("{} := {}", ["polygon", "box", "placement"][change(o).0], change(o).1),
                o => question(o - CHANGES),
            };
            h.iter().map(|&o| name(o)).collect::<Vec<_>>().join("; ")
        },
        &|h| {
            let end = h.last().is_some_and(|&o| o < CHANGES) && h.len() == depth;
            if end {
                return Ok(None);
            }
            mckit::cmp();
            judge(depth_alone >= h.len(), || {
                let mut at = [0usize; 3];
                let mut s = Scene::new(at);
                for &o in h {
                    if o < CHANGES {
                        let (what, to) = change(o);
                        at[what] = to;
                        s.change(what, to);
                    } else {
                        let q = o - CHANGES;
                        let got = lib("query", || s.ask(q))?;
                        let i = (at[0] * BOXES.len() + at[1]) * PLACES.len() + at[2];
                        let want = fresh[i][q].as_ref().map_err(|e| e.clone())?;
                        ensure!(&got == want, "{} answers {got}, but {want} when asked first", question(q));
                    }
                }
                Ok(())
            })?;
            Ok((h.len() < depth).then(|| h.iter().map(|&o| o as u8).collect()))
        },
    );
}

/// C09: a polygon whose points are moved, added and taken away in place between questions.
pub fn support(run: &mut Run) {
    let moves = [[4.0f32, 0.3], [-0.2, 5.0], [-6.0, -6.0], [0.1, 0.1]];
    let dirs = [Vec2::X, Vec2::new(-1.0, -1.0), Vec2::new(0.1, 1.0)];
    let ops = 3 * moves.len() + 2 + dirs.len();
    let (depth, depth_alone) = (run.tier.pick(5, 6), run.tier.pick(4, 5));
    run.histories(
        "memory",
        ops,
        depth,
        &|h| {
            let name = |o: usize| match o {
                o if o < 3 * moves.len() => format!("point {} := {:?}", o / moves.len(), moves[o % moves.len()]),
                12 => "push".into(),
                13 => "pop".into(),
                o => format!("extreme_point({:?})", dirs[o - 14]),
            };
            h.iter().map(|&o| name(o)).collect::<Vec<_>>().join("; ")
        },
        &|h| {
            if h.len() == depth && h.last().is_some_and(|&o| o < 14) {
                return Ok(None);
            }
            mckit::cmp();
            judge(depth_alone >= h.len(), || {
                let mut p = Poly2d::new(&[Vec2::new(-1.0, -1.0), Vec2::new(1.0, -1.0), Vec2::new(0.0, 1.0)]);
                p.points.reserve(8);
                for &o in h {
                    match o {
                        o if o < 3 * moves.len() => p.points[o / moves.len()] = Vec2::from(moves[o % moves.len()]),
                        12 => p.points.push(Vec2::new(7.0 + p.points.len() as f32, 0.5)),
                        13 if p.points.len() > 3 => drop(p.points.pop()),
                        13 => {}
                        o => {
                            let d = dirs[o - 14];
                            let want = p.points.iter().map(|q| q.dot(d)).fold(f32::MIN, f32::max);
                            let got = lib("extreme_point", || p.extreme_point(d))?;
                            ensure!(got.dot(d) == want && p.points.contains(&got), "extreme_point({d:?}) of {:?} is {got:?}", p.points);
                            let b = lib("bounding box", || p.symmetric_bounding_box())?.halfsize;
                            let all = p.points.iter().fold(Vec2::ZERO, |m, q| m.max(q.abs()));
                            ensure!(b == all, "bounding box of {:?} is {b:?}", p.points);
                        }
                    }
                }
                Ok(())
            })?;
            Ok((h.len() < depth).then(|| h.iter().map(|&o| o as u8).collect()))
        },
    );
}
