//! C27: values shared between threads, under every interleaving of their shared accesses.
#[path = "../../harness/src/engine.rs"]
#[allow(dead_code)]
mod engine;

use cgar::geometry::aabb_tree::AabbTree;
use cgar::geometry::intersection::{SegmentIntersection3, segment_segment_intersection_3};
use cgar::geometry::point::Point;
use cgar::geometry::segment::Segment;
use cgar::geometry::spatial_element::SpatialElement;
use cgar::geometry::tri_tri_intersect::{TriTriIntersectionResult, tri_tri_intersection};
use cgar::geometry::vector::Vector;
use cgar::kernel::orient;
use cgar::kernel::predicates::{incircle, orient2d};
use cgar::mesh::basic_types::{IntersectionResult, Mesh, PointInMeshResult};
use cgar::numeric::cgar_rational::CgarRational;
use cgar::numeric::lazy_exact::LazyExact;
use cgar::numeric::scalar::Scalar;
use cgar::operations::{Abs, Zero};
use engine::*;
use mc_std::sched::{Pool, point};
use num_traits::ToPrimitive;
use rug::Rational;
use std::hash::{DefaultHasher, Hash, Hasher};
use std::sync::{Arc, Mutex};

type L = LazyExact;
type Job = Box<dyn FnOnce() + Send>;

/// a leaf, or an operation on one or two earlier entries of the list
#[derive(Clone, Copy, Debug, PartialEq)]
enum Ex {
    Float(f64),
    Frac(i32, i32),
    Op(char, usize, usize),
}
use Ex::*;

fn build(p: &[Ex]) -> (Vec<L>, Vec<Rational>) {
    let (mut l, mut r): (Vec<L>, Vec<Rational>) = (vec![], vec![]);
    for e in p {
        match *e {
            Float(x) => {
                l.push(L::from_f64(x));
                r.push(Rational::from_f64(x).unwrap());
            }
            Frac(a, b) => {
                l.push(L::from_num_den(a, b));
                r.push(Rational::from((a, b)));
            }
            Op(o, a, b) => {
                let (x, y) = (&l[a], &l[b]);
                let (u, v) = (&r[a], &r[b]);
                let (n, q) = match o {
                    '+' => (x + y, Rational::from(u + v)),
                    '-' => (x - y, Rational::from(u - v)),
                    '*' => (x * y, Rational::from(u * v)),
                    '/' => (x / y, Rational::from(u / v)),
                    _ => (-x, Rational::from(-u)),
                };
                l.push(n);
                r.push(q);
            }
        }
    }
    (l, r)
}

fn digest(x: &L) -> u64 {
    let mut h = DefaultHasher::new();
    x.hash(&mut h);
    h.finish()
}
fn near(f: f64, v: &Rational, scale: f64) -> bool {
    match Rational::from_f64(f) {
        Some(f) => Rational::from(&f - v).abs().to_f64() <= 1e-9 * scale,
        None => false,
    }
}
fn same(name: &str, got: &L, want: &Rational) -> Result<(), String> {
    if got.exact().0 == *want { Ok(()) } else { Err(format!("{name} gave {:?}, is {want}", got.exact().0)) }
}
fn say<T: PartialEq + std::fmt::Debug>(name: &str, got: T, want: T) -> Result<(), String> {
    if got == want { Ok(()) } else { Err(format!("{name} gave {got:?}, is {want:?}")) }
}
fn sgn(v: &Rational) -> i8 {
    v.cmp0() as i8
}

pub const QUERIES: usize = 21;
/// one thing a thread asks of two shared numbers
fn ask(q: usize, x: &L, y: &L, u: &Rational, v: &Rational, hu: u64) -> Result<(), String> {
    match q {
        0 => say("sign", x.sign(), sgn(u)),
        1 => say("order", x.partial_cmp(y), u.partial_cmp(v)),
        2 => say("order", L::cmp_ref(x, y), u.cmp(v)),
        3 => say("equality", x == y, u == v),
        4 => say("hash", digest(x), hu),
        5 => same("exact value", x, u),
        6 => {
            if let Some((lo, hi)) = x.double_interval() {
                if Rational::from_f64(lo).is_some_and(|l| l > *u) || Rational::from_f64(hi).is_some_and(|h| h < *u) {
                    return Err(format!("interval {lo:e} {hi:e} misses {u}"));
                }
            }
            match x.as_f64_fast() {
                Some(f) if !near(f, u, u.to_f64().abs()) => Err(format!("double image {f:e} of {u}")),
                _ => Ok(()),
            }
        }
        7 => {
            let b = *x.ball_ref();
            let d = Rational::from(u - Rational::from_f64(b.m).unwrap_or_default()).abs();
            match Rational::from_f64(b.r) {
                Some(r) if d > r => Err(format!("ball {:e} {:e} misses {u}", b.m, b.r)),
                _ => Ok(()),
            }
        }
        // no double image is promised for quotients by what doubles cannot tell from zero
        8 => say("approximate value near", near(x.approx().0, u, 10.0) || u.clone().abs() > 1_000_000, true),
        9 => same("sum", &(x + y), &Rational::from(u + v)),
        10 => say("sign of difference", (x - y).sign(), sgn(&Rational::from(u - v))),
        11 => {
            let p = x * y;
            say("sign of product", p.sign(), sgn(&Rational::from(u * v)))?;
            say("hash of product", digest(&p), digest(&L::from_rug_rational(Rational::from(u * v))))
        }
        12 => same("quotient", &(y / &(x * x + L::from(1))), &Rational::from(v / &(Rational::from(u * u) + 1))),
        13 => {
            same("negation", &-x, &Rational::from(-u))?;
            same("absolute value", &Abs::abs(x), &u.clone().abs())
        }
        14 => {
            same("minimum", &Scalar::min(x.clone(), y.clone()), if u < v { u } else { v })?;
            same("maximum", &Scalar::max(x.clone(), y.clone()), if u > v { u } else { v })
        }
        15 => {
            let mut z = x.clone();
            z += y;
            z -= x;
            same("sum and back", &z, v)
        }
        16 => {
            say("double", x.to_f64().is_some_and(|f| near(f, u, u.to_f64().abs())), true)?;
            say("integer", x.to_i64(), Rational::from(u.trunc_ref()).numer().to_i64())
        }
        17 => {
            x.force_exact();
            say("exact known", x.has_exact(), true)?;
            same("copy", &x.clone(), u)
        }
        18 => {
            say("zero", Zero::is_zero(x), sgn(u) == 0)?;
            say("positive", x.is_positive(), sgn(u) > 0)?;
            say("against zero", x.cmp_zero(), u.cmp0())
        }
        20 => {
            say("order", L::cmp_ref(y, x), v.cmp(u))?;
            say("equality", y == x, v == u)
        }
        _ => {
            if let Some(o) = x.cmp_fast(y) {
                say("quick order", o, u.cmp(v))?;
            }
            let r: CgarRational = x.into();
            say("as rational", r.0 == *u, true)?;
            say("close", x.approx_eq(x), true)
        }
    }
}

struct Scene {
    prog: Vec<Ex>,
    /// the shared numbers: entries of the program
    x: usize,
    y: usize,
    /// what each thread asks, one after the other
    asks: Vec<Vec<usize>>,
}

thread_local! {
    static POOL: std::cell::RefCell<Vec<Option<Pool>>> = const { std::cell::RefCell::new(vec![]) };
}
fn with_pool<R>(n: usize, f: impl FnOnce(&Pool) -> R) -> R {
    POOL.with(|p| {
        let mut p = p.borrow_mut();
        while p.len() <= n {
            p.push(None);
        }
        f(p[n].get_or_insert_with(|| Pool::new(n)))
    })
}

type Say = Result<(), String>;
/// what one thread does, step by step
type Steps = Vec<Box<dyn FnOnce() -> Say + Send>>;

/// every interleaving of what the threads do; `make` gives them fresh shared values and says
/// what has to hold afterwards
fn explore(threads: usize, bound: usize, c: &mut Ctx, name: &dyn Fn() -> String, make: &dyn Fn() -> (Vec<Steps>, Box<dyn FnOnce() -> Say>)) -> Res {
    let errs: Arc<Mutex<Vec<String>>> = Arc::default();
    let after: std::cell::RefCell<Option<Box<dyn FnOnce() -> Say>>> = Default::default();
    let all = with_pool(threads, |pool| {
        pool.explore(
            bound,
            || {
                let (steps, then) = make();
                *after.borrow_mut() = Some(then);
                steps
                    .into_iter()
                    .map(|st| {
                        let errs = errs.clone();
                        Box::new(move || {
                            for s in st {
                                point();
                                if let Err(e) = s() {
                                    errs.lock().unwrap().push(e);
                                }
                            }
                        }) as Job
                    })
                    .collect()
            },
            |run, path| {
                c.case();
                c.call(run.steps);
                c.tick();
                c.hit(["one after the other", "one preemption", "two preemptions", "more preemptions"][run.preempted.min(3)]);
                ensure!(!run.stuck, "stuck", "{}: the threads block each other for ever, schedule {}", name(), runs(path));
                if let Some(p) = run.panics.iter().flatten().next() {
                    return fail("panic", format!("{}: {p}, schedule {}", name(), runs(path)));
                }
                if let Some(e) = errs.lock().unwrap().pop() {
                    return fail("answer", format!("{}: {e}, schedule {}", name(), runs(path)));
                }
                let then = after.borrow_mut().take().unwrap();
                match then() {
                    Ok(()) => Ok(()),
                    Err(e) => fail("afterwards", format!("{}: afterwards {e}, schedule {}", name(), runs(path))),
                }
            },
        )
    })?;
    if !all {
        c.hit("cut short");
    }
    Ok(())
}

/// who ran, and for how many shared accesses
fn runs(path: &[usize]) -> String {
    let mut out: Vec<(usize, usize)> = vec![];
    for t in path {
        match out.last_mut() {
            Some(l) if l.0 == *t => l.1 += 1,
            _ => out.push((*t, 1)),
        }
    }
    out.iter().map(|(t, n)| format!("thread {t} for {n}")).collect::<Vec<_>>().join(", ")
}

fn numbers(s: &Scene, bound: usize, c: &mut Ctx) -> Res {
    let values = build(&s.prog).1;
    let (u, v) = (Arc::new(values[s.x].clone()), Arc::new(values[s.y].clone()));
    let hu = digest(&L::from_rug_rational((*u).clone()));
    let name = || format!("{:?}, shared {} and {}, threads ask {:?}", s.prog, s.x, s.y, s.asks);
    explore(s.asks.len(), bound, c, &name, &|| {
        let (l, _) = build(&s.prog);
        let (x, y) = (l[s.x].clone(), l[s.y].clone());
        let steps = s
            .asks
            .iter()
            .map(|qs| {
                qs.iter()
                    .map(|q| {
                        let (q, x, y, u, v) = (*q, x.clone(), y.clone(), u.clone(), v.clone());
                        Box::new(move || ask(q, &x, &y, &u, &v, hu)) as Box<dyn FnOnce() -> Say + Send>
                    })
                    .collect()
            })
            .collect();
        let (u, v) = (u.clone(), v.clone());
        let then = move || {
            same("value", &x, &u)?;
            same("value", &y, &v)?;
            say("sign", (x.sign(), y.sign()), (sgn(&u), sgn(&v)))?;
            say("hash", digest(&x), hu)
        };
        (steps, Box::new(then))
    })
}

/// every expression with up to two operations over a double and a fraction, with sharing
fn programs(leaves: [Ex; 2]) -> Vec<Vec<Ex>> {
    let ops = ['+', '-', '*', '/', 'n'];
    let mut out = vec![];
    let base = leaves.to_vec();
    for o in ops {
        for a in 0..2 {
            for b in 0..if o == 'n' { 1 } else { 2 } {
                let mut p = base.clone();
                p.push(Op(o, a, b));
                out.push(p);
            }
        }
    }
    let one = out.clone();
    for p in one {
        for o in ops {
            for (a, b) in [(2, 0), (1, 2), (2, 2)] {
                if o == 'n' && b != 2 {
                    continue;
                }
                if o == '/' && build(&p).1[b] == 0 {
                    continue;
                }
                let mut q = p.clone();
                q.push(Op(o, a, b));
                out.push(q);
            }
        }
    }
    out
}

/// two threads, every pair of questions
fn pairs(name: &str, progs: Vec<Vec<Ex>>, bound: usize) -> Family {
    let mut asks = vec![];
    for a in 0..QUERIES {
        for b in a..QUERIES {
            asks.push(vec![vec![a], vec![b]]);
        }
    }
    many(name, progs, asks, bound)
}
fn many(name: &str, progs: Vec<Vec<Ex>>, asks: Vec<Vec<Vec<usize>>>, bound: usize) -> Family {
    family(format!("{name}-{}-{}-bound-{bound}", progs.len(), asks.len()), (progs.len() * asks.len() * 2) as u64, move |i, c| {
        let mut d = Dec(i);
        let asks = asks[d.take(asks.len())].clone();
        let mut prog = progs[d.take(progs.len())].clone();
        let x = prog.len() - 1;
        if d.take(2) == 0 {
            // another number made from the first
            prog.push(Op('-', x, 0));
        } else {
            // an equal number made separately from the same leaves
            let twin: Vec<Ex> = prog[2..]
                .iter()
                .map(|e| match *e {
                    Op(o, a, b) => {
                        let f = |k: usize| if k < 2 { k } else { k + x - 1 };
                        Op(o, f(a), f(b))
                    }
                    e => e,
                })
                .collect();
            prog.extend(twin);
        }
        let s = Scene { x, y: prog.len() - 1, prog, asks };
        c.sample(|| format!("{:?} asked {:?}", s.prog, s.asks));
        numbers(&s, bound, c)
    })
}

/// a number that is not known exactly yet
fn num(k: i64) -> L {
    &L::from_f64(k as f64 * 0.5) + &(&L::from_f64(0.1) * &L::from_f64(k as f64))
}
struct Shared {
    p: Vec<Point<L, 3>>,
    q: Vec<Point<L, 2>>,
    m: Mesh<L, 3>,
    tree: AabbTree<L, 3, Point<L, 3>, usize>,
}
fn shared(pts: &[[i64; 3]; 5]) -> Shared {
    let p: Vec<Point<L, 3>> = pts.iter().map(|p| Point::<L, 3>::from_vals(p.map(num))).collect();
    let q = p.iter().map(|p| Point::<L, 2>::from_vals([p[0].clone(), p[1].clone()])).collect();
    let mut m = Mesh::<L, 3>::new();
    for x in &p[..4] {
        m.add_vertex(x.clone());
    }
    for t in [[0, 2, 1], [0, 1, 3], [1, 2, 3], [2, 0, 3]] {
        m.add_triangle(t[0], t[1], t[2]);
    }
    let tree = m.build_face_tree();
    Shared { p, q, m, tree }
}
fn show(p: &Point<L, 3>) -> String {
    format!("({} {} {})", p[0].exact().0, p[1].exact().0, p[2].exact().0)
}
pub const PLACES: usize = 10;
/// one thing a thread asks of shared points or a shared mesh
fn place(q: usize, s: &Shared) -> String {
    let p = &s.p;
    match q {
        0 => format!("{}", orient::<L, 3>(&[p[0].clone(), p[1].clone(), p[2].clone(), p[4].clone()]).sign()),
        1 => format!("{}", orient2d(&s.q[0], &s.q[1], &s.q[4]).sign()),
        2 => match segment_segment_intersection_3(&Segment::new(&p[0], &p[1]), &Segment::new(&p[2], &p[4])) {
            SegmentIntersection3::None => "none".into(),
            SegmentIntersection3::Point(p) => show(&p),
            SegmentIntersection3::Overlapping(s) => format!("{} {}", show(&s.a), show(&s.b)),
        },
        3 => match tri_tri_intersection(&[&p[0], &p[1], &p[2]], &[&p[2], &p[3], &p[4]]) {
            TriTriIntersectionResult::None => "none".into(),
            TriTriIntersectionResult::Proper(s) | TriTriIntersectionResult::Coplanar(s) => format!("{} {}", show(&s.a), show(&s.b)),
            TriTriIntersectionResult::CoplanarPolygon(v) => v.iter().map(|s| show(&s.a)).collect(),
        },
        4 => format!("{}", incircle(&s.q[0], &s.q[1], &s.q[2], &s.q[4]).sign()),
        5 => format!("{:?}", (0..4).map(|i| p[4] == p[i]).collect::<Vec<_>>()),
        6 => match s.m.point_in_mesh_3(&s.tree, &p[4]) {
            PointInMeshResult::Inside => "inside".into(),
            PointInMeshResult::OnSurface => "on".into(),
            PointInMeshResult::Outside => "outside".into(),
        },
        7 => match s.m.cast_ray_3(&p[4], &Vector::<L, 3>::from_vals([1, 2, 5].map(num)), &s.tree, &None) {
            IntersectionResult::Miss => "miss".into(),
            IntersectionResult::Hit(_, t) => format!("hit at {}", t.exact().0),
        },
        8 => {
            let c = s.m.face_centroid(1);
            show(&Point::<L, 3>::from_vals([c[0].clone(), c[1].clone(), c[2].clone()]))
        }
        _ => {
            let mut m = s.m.clone();
            let mut tree = m.build_face_tree();
            let c = m.face_centroid(0);
            let c = Point::<L, 3>::from_vals([c[0].clone(), c[1].clone(), c[2].clone()]);
            let r = m.split_face(&mut tree, 0, &c, true).is_ok();
            format!("{r} {} {}", m.vertices.len(), m.faces.iter().filter(|f| !f.removed).count())
        }
    }
}
/// two threads, every pair of questions about the same places
fn places(pts: Vec<[[i64; 3]; 5]>, which: Vec<usize>, bound: usize) -> Family {
    let mut asks = vec![];
    for a in &which {
        for b in which.iter().filter(|b| *b >= a) {
            asks.push([*a, *b]);
        }
    }
    family(format!("places-{}-{}-bound-{bound}", pts.len(), asks.len()), (pts.len() * asks.len()) as u64, move |i, c| {
        let mut d = Dec(i);
        let asks = asks[d.take(asks.len())];
        let pts = pts[d.take(pts.len())];
        // each asked alone
        let want: Vec<String> = asks.iter().map(|q| place(*q, &shared(&pts))).collect();
        c.sample(|| format!("{pts:?} asked {asks:?}: {want:?}"));
        explore(2, bound, c, &|| format!("{pts:?} asked {asks:?}"), &|| {
            let s = Arc::new(shared(&pts));
            let steps = (0..2)
                .map(|t| {
                    let (s, q, want) = (s.clone(), asks[t], want[t].clone());
                    vec![Box::new(move || {
                        let got = place(q, &s);
                        if got == want { Ok(()) } else { Err(format!("question {q} gave {got}, alone it gives {want}")) }
                    }) as Box<dyn FnOnce() -> Say + Send>]
                })
                .collect();
            (steps, Box::new(|| Ok(())))
        })
    })
}

fn main() {
    let th = thorough() as usize;
    let all = programs([Float(0.1), Frac(1, 3)]);
    // their difference is not zero but too small for doubles to tell
    let close = programs([Float(0.1), Frac(1, 10)]);
    let some = [0, 2, 4, 5, 7, 10, 15, 20];
    let mut two = vec![];
    let mut three = vec![];
    for a in some {
        for b in some {
            for d in some {
                if a <= b && b <= d {
                    three.push(vec![vec![a], vec![b], vec![d]]);
                }
                for e in some {
                    if (a, b) <= (d, e) {
                        two.push(vec![vec![a, b], vec![d, e]]);
                    }
                }
            }
        }
    }
    let spots = vec![
        [[0, 0, 0], [4, 0, 0], [0, 4, 0], [0, 0, 4], [1, 1, 1]],
        [[0, 0, 0], [4, 0, 0], [0, 4, 0], [0, 0, 4], [2, 0, 0]],
        [[0, 0, 0], [4, 0, 0], [0, 4, 0], [0, 0, 4], [3, 3, 3]],
    ];
    let f = vec![
        pairs("pairs", all.clone(), 1),
        pairs("close-pairs", close.clone(), 1),
        pairs("pairs", all[..18].to_vec(), 2 + th),
        pairs("close-pairs", close[5..7].to_vec(), 2 + th),
        many("two-each", [&all[..if th == 1 { 18 } else { 8 }], &close[5..7]].concat(), two, 1 + th),
        many("three", [&all[..18], &close[5..7]].concat(), three.clone(), 1 + th),
        many("three", [&all[4..if th == 1 { 8 } else { 5 }], &close[5..6]].concat(), three, 2),
        places(spots.clone(), vec![0, 1, 2, 4, 5], 1),
        places(spots[..1 + 2 * th].to_vec(), vec![3, 6, 7, 8, 9], 1),
    ];
    run_check(
        "C27",
        Opts {
            rule: "every interleaving, up to the number of preemptions, of the shared accesses of threads that ask every combination of questions of the same numbers".into(),
            assumptions: match std::env::var("MC_PLAIN") {
                Ok(_) => vec!["shared accesses inside the library could not be intercepted; only whole questions are interleaved".into()],
                Err(_) => vec!["shared accesses take effect one at a time (sequential consistency)".into()],
            },
            ..Default::default()
        },
        f,
    )
}
