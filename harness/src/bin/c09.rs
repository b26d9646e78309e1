//! C09: bounding boxes and the box tree answer exactly like a linear scan, through every history.
use cgar::geometry::point::Point;
use cgar::geometry::spatial_element::SpatialElement;
use cgar::geometry::{Aabb, AabbTree};
use cgar::kernel::predicates::{bbox2d, bbox3d, bbox_approx2d, bbox_approx3d, centroid2};
use mc::engine::*;
use mc::ensure;
use mc::geo::*;
use rug::Rational;

type Iv = (i64, i64);
/// intervals over 0..=n
fn intervals(n: i64) -> Vec<Iv> {
    let mut v = vec![];
    for a in 0..=n {
        for b in a..=n {
            v.push((a, b));
        }
    }
    v
}

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
struct Bx<const N: usize> {
    lo: [i64; N],
    hi: [i64; N],
}

fn boxes<const N: usize>(n: i64) -> Vec<Bx<N>> {
    let iv = intervals(n);
    let k = iv.len();
    (0..k.pow(N as u32))
        .map(|mut i| {
            let mut b = Bx { lo: [0; N], hi: [0; N] };
            for a in 0..N {
                let (l, h) = iv[i % k];
                i /= k;
                b.lo[a] = l;
                b.hi[a] = h;
            }
            b
        })
        .collect()
}

fn meet<const N: usize>(a: &Bx<N>, b: &Bx<N>) -> bool {
    (0..N).all(|i| a.lo[i] <= b.hi[i] && b.lo[i] <= a.hi[i])
}

#[derive(Clone, Copy, Debug)]
enum Op {
    Insert(usize),
    Invalidate(usize),
    Compact,
}

mc::per_scalar! {
    fn skip(f: &Frame) -> bool { !T::EXACT && f.exact_only }
    type Bb<const N: usize> = Aabb<T, N, Point<T, N>>;
    type Tree<const N: usize> = AabbTree<T, N, Point<T, N>, usize>;

    fn mk<const N: usize>(f: &Frame, b: &Bx<N>) -> Bb<N> {
        // mirrored frames swap the corners
        let (p, q) = (pt::<T, N>(f, &b.lo), pt::<T, N>(f, &b.hi));
        Aabb::from_points(&p, &q)
    }
    fn corners<const N: usize>(f: &Frame, b: &Bx<N>) -> ([Rational; N], [Rational; N]) {
        let a: [Rational; N] = std::array::from_fn(|i| f.q(i, b.lo[i]).min(f.q(i, b.hi[i])));
        let z: [Rational; N] = std::array::from_fn(|i| f.q(i, b.lo[i]).max(f.q(i, b.hi[i])));
        (a, z)
    }
    fn is_box<const N: usize>(f: &Frame, g: &Bb<N>, want: &Bx<N>) -> bool {
        let (a, z) = corners(f, want);
        same_pt(g.min(), &a) && same_pt(g.max(), &z)
    }

    /// pairs of boxes: construction, union, intersection
    pub fn pairs<const N: usize>(name: &str, n: i64, fr: Vec<Frame>) -> Family {
        let bx = boxes::<N>(n);
        let (k, m) = (fr.len(), bx.len());
        family(&format!("{}/{name}", T::NAME), (k * m) as u64, move |i, c| {
            let mut d = Dec(i);
            let f = &fr[d.take(k)];
            if skip(f) { return Ok(()); }
            let a = bx[d.take(m)];
            let ga = mk(f, &a);
            ensure!(is_box(f, &ga, &a), "from-points", "{a:?} frame {}: {ga:?}", f.name);
            let flip = Aabb::from_points(&pt::<T, N>(f, &a.hi), &pt::<T, N>(f, &a.lo));
            ensure!(is_box(f, &flip, &a), "from-points-swapped", "{a:?} frame {}", f.name);
            for ax in 0..N {
                let want = (f.q(ax, a.lo[ax]) + f.q(ax, a.hi[ax])) / 2;
                ensure!(same(&ga.center(ax), &want), "center", "{a:?} axis {ax} frame {}", f.name);
            }
            let l = ga.longest_axis();
            ensure!((0..N).all(|x| a.hi[x] - a.lo[x] <= a.hi[l] - a.lo[l]), "longest-axis", "{a:?}: axis {l}");
            let step = Rational::from(f.s.abs_ref());
            let inf = ga.inflated(&T::of(&step));
            let (mn, mx) = corners(f, &a);
            ensure!(same_pt(inf.min(), &mn.clone().map(|v| v - &step)) && same_pt(inf.max(), &mx.clone().map(|v| v + &step)), "inflated", "{a:?} frame {}", f.name);
            let iq = ga.inflated_query_tol();
            ensure!((0..N).all(|x| iq.min()[x] <= ga.min()[x] && iq.max()[x] >= ga.max()[x] && iq.max()[x].val().map_or(false, |v| v - &mx[x] < Rational::from((1, 1000)))), "inflated-tol", "{a:?} frame {}", f.name);
            for b in &bx {
                let gb = mk(f, b);
                c.case();
                c.call(5);
                let want = meet(&a, b);
                ensure!(ga.intersects(&gb) == want, "intersects", "{a:?} {b:?} frame {}: got {}, truth {want}", f.name, !want);
                if let Some(x) = ga.intersects_approx(&gb) {
                    ensure!(x == want, "intersects-approx", "{a:?} {b:?} frame {}: approximate answer {x}, truth {want}", f.name);
                }
                let u = Bx { lo: std::array::from_fn(|i| a.lo[i].min(b.lo[i])), hi: std::array::from_fn(|i| a.hi[i].max(b.hi[i])) };
                ensure!(is_box(f, &ga.union(&gb), &u), "union", "{a:?} {b:?} frame {}", f.name);
                c.hit(if want { "meet" } else { "apart" });
            }
            c.sample(|| format!("{a:?} against every box, frame {}", f.name));
            Ok(())
        })
    }

    /// compare both queries with a linear scan over the model
    fn check_tree<const N: usize>(f: &Frame, t: &Tree<N>, model: &[(Bx<N>, usize, bool)], qs: &[(Bx<N>, Bb<N>)], c: &mut Ctx, w: &dyn Fn() -> String) -> Res {
        for (q, gq) in qs {
            c.call(2);
            let mut out = vec![];
            t.query(gq, &mut out);
            let mut got: Vec<usize> = out.into_iter().copied().collect();
            got.sort();
            let mut want: Vec<usize> = model.iter().filter(|(b, _, _)| meet(b, q)).map(|x| x.1).collect();
            want.sort();
            ensure!(got == want, "query", "{}: query {q:?} frame {} gave {got:?}, truth {want:?}", w(), f.name);
            let mut out = vec![];
            t.query_valid(gq, &mut out);
            let mut got: Vec<usize> = out.into_iter().copied().collect();
            got.sort();
            let mut want: Vec<usize> = model.iter().filter(|(b, _, v)| *v && meet(b, q)).map(|x| x.1).collect();
            want.sort();
            ensure!(got == want, "query-valid", "{}: valid query {q:?} frame {} gave {got:?}, truth {want:?}", w(), f.name);
        }
        let valid = model.iter().filter(|x| x.2).count();
        ensure!(t.needs_rebuild() == (2 * valid < model.len()), "needs-rebuild", "{}: needs_rebuild={} with {valid} of {} valid", w(), t.needs_rebuild(), model.len());
        for id in 0..model.len().max(4) + 1 {
            match t.get_aabb(id) {
                None => ensure!(model.iter().all(|x| x.1 != id), "get-aabb", "{}: entry {id} not found", w()),
                Some(b) => ensure!(model.iter().any(|x| x.1 == id && is_box(f, b, &x.0)), "get-aabb", "{}: entry {id} has a foreign box", w()),
            }
        }
        Ok(())
    }

    fn walk<const N: usize>(f: &Frame, ib: &[Bx<N>], tree: &dyn Fn() -> Tree<N>, trace: &mut Vec<Op>, depth: usize, qs: &[(Bx<N>, Bb<N>)], init: &[(Bx<N>, usize, bool)], dup: bool, c: &mut Ctx) -> Res {
        // the tree has no copy operation: replay the trace from the start for every node
        let mut t = tree();
        let mut model = init.to_vec();
        let mut next = model.len();
        let w = |tr: &Vec<Op>| format!("start {init:?}, history {tr:?}");
        for op in trace.iter() {
            match *op {
                Op::Insert(b) => {
                    let id = if dup { next % 2 } else { next };
                    t.insert(mk(f, &ib[b]), id);
                    model.push((ib[b], id, true));
                    next += 1;
                }
                Op::Invalidate(id) => {
                    let r = t.invalidate(&id);
                    let mut n = 0;
                    for m in model.iter_mut() {
                        if m.1 == id && m.2 { m.2 = false; n += 1; }
                    }
                    ensure!(r == n, "invalidate-count", "{}: invalidate({id}) returned {r}, truth {n}", w(trace));
                }
                Op::Compact => {
                    model.retain(|m| m.2);
                    match t.compact() {
                        None => {
                            ensure!(model.is_empty(), "compact-empty", "{}: compact lost entries", w(trace));
                            return Ok(());
                        }
                        Some(n) => {
                            ensure!(!model.is_empty(), "compact-ghost", "{}: compact kept an invalid entry", w(trace));
                            t = n;
                        }
                    }
                }
            }
        }
        c.case();
        c.tick();
        check_tree(f, &t, &model, qs, c, &|| w(trace))?;
        if trace.len() < depth {
            for b in 0..ib.len() {
                trace.push(Op::Insert(b));
                walk(f, ib, tree, trace, depth, qs, init, dup, c)?;
                trace.pop();
            }
            let ids = if dup { 3 } else { next + 1 };
            for id in 0..ids {
                trace.push(Op::Invalidate(id));
                walk(f, ib, tree, trace, depth, qs, init, dup, c)?;
                trace.pop();
            }
            trace.push(Op::Compact);
            walk(f, ib, tree, trace, depth, qs, init, dup, c)?;
            trace.pop();
        }
        Ok(())
    }

    /// every history of insert / invalidate / compact up to `depth` from every one- and two-box tree
    pub fn histories(fr: Vec<Frame>, depth: usize, dup: bool) -> Family {
        let ib: Vec<Bx<2>> = [((0, 0), (0, 0)), ((0, 2), (1, 1)), ((1, 1), (0, 2)), ((2, 2), (2, 2))]
            .iter().map(|&((a, b), (x, y))| Bx { lo: [a, x], hi: [b, y] }).collect();
        let k = fr.len();
        let all = boxes::<2>(2);
        family(&format!("{}/histories{}", T::NAME, if dup { "-shared-data" } else { "" }), (k * 20) as u64, move |i, c| {
            let mut d = Dec(i);
            let f = &fr[d.take(k)];
            if skip(f) { return Ok(()); }
            let j = d.take(20);
            let init: Vec<(Bx<2>, usize, bool)> = if j < 4 { vec![(ib[j], 0, true)] } else {
                let j = j - 4;
                vec![(ib[j % 4], 0, true), (ib[j / 4], 1, true)]
            };
            let qs: Vec<(Bx<2>, Bb<2>)> = all.iter().map(|b| (*b, mk(f, b))).collect();
            let init2 = init.clone();
            let tree = move || AabbTree::build(init2.iter().map(|x| (mk(f, &x.0), x.1)).collect());
            c.sample(|| format!("all histories to depth {depth} from {init:?}"));
            walk(f, &ib, &tree, &mut vec![], depth, &qs, &init, dup, c)
        })
    }

    /// every subset of a grid of unit boxes, built at once
    pub fn subsets<const N: usize>(name: &str, side: i64, fr: Vec<Frame>) -> Family {
        let k = fr.len();
        let cells = side.pow(N as u32) as usize;
        let bx: Vec<Bx<N>> = (0..cells).map(|i| {
            let lo: [i64; N] = lat(i, side as usize, 0);
            // two cells in three are unit boxes, the rest points: centres and extents differ
            Bx { lo: lo.map(|v| 2 * v), hi: lo.map(|v| 2 * v + (i % 3 != 0) as i64) }
        }).collect();
        let qall = boxes::<N>(2 * side - 1);
        family(&format!("{}/{name}", T::NAME), (k * ((1usize << cells) - 1)) as u64, move |i, c| {
            let mut d = Dec(i);
            let f = &fr[d.take(k)];
            if skip(f) { return Ok(()); }
            let mask = d.0 as usize + 1;
            let model: Vec<(Bx<N>, usize, bool)> = (0..cells).filter(|x| mask >> x & 1 == 1).map(|x| (bx[x], x, true)).collect();
            let (t, look) = AabbTree::build_with_lookup(model.iter().map(|x| (mk(f, &x.0), x.1)).collect::<Vec<_>>());
            ensure!(look.len() == model.len() && look.iter().zip(&model).all(|(g, m)| is_box(f, g, &m.0)), "lookup", "{model:?}: lookup table differs");
            let qs: Vec<(Bx<N>, Bb<N>)> = qall.iter().map(|b| (*b, mk(f, b))).collect();
            c.case();
            check_tree(f, &t, &model, &qs, c, &|| format!("built from {model:?}"))
        })
    }

    /// trees of every size up to a bound, from rows, diagonals, nests and grids of boxes in several orders,
    /// built at once or by insertion, then emptied entry by entry
    pub fn sizes(max: usize, fr: Vec<Frame>) -> Family {
        let k = fr.len();
        family(&format!("{}/sizes", T::NAME), (k * max * 4 * 3 * 2) as u64, move |i, c| {
            let mut d = Dec(i);
            let f = &fr[d.take(k)];
            if skip(f) { return Ok(()); }
            let (shape, order, how, n) = (d.take(4), d.take(3), d.take(2), d.take(max) + 1);
            let bx = |j: usize| -> Bx<2> {
                let (j, m) = (j as i64, n as i64);
                match shape {
                    0 => Bx { lo: [2 * j, 0], hi: [2 * j + 1, 1] },
                    1 => Bx { lo: [2 * j, -3 * j], hi: [2 * j + 1, 1 - 3 * j] },
                    2 => Bx { lo: [-j, -j], hi: [j, 2 * m - j] },
                    _ => Bx { lo: [j % 7 * 2, j / 7], hi: [j % 7 * 2 + 2, j / 7] },
                }
            };
            let seq: Vec<usize> = match order {
                0 => (0..n).collect(),
                1 => (0..n).rev().collect(),
                // from both ends towards the middle
                _ => (0..n).map(|j| if j % 2 == 0 { j / 2 } else { n - 1 - j / 2 }).collect(),
            };
            let mut model: Vec<(Bx<2>, usize, bool)> = seq.iter().map(|&j| (bx(j), j, true)).collect();
            let items = |m: &[(Bx<2>, usize, bool)]| m.iter().map(|x| (mk(f, &x.0), x.1)).collect::<Vec<_>>();
            let mut t: Tree<2> = if how == 0 { AabbTree::build(items(&model)) } else {
                let mut t = AabbTree::build(items(&model[..1]));
                for x in &model[1..] { t.insert(mk(f, &x.0), x.1); }
                t
            };
            let mut qs: Vec<Bx<2>> = (0..n).map(|j| { let b = bx(j); Bx { lo: b.lo, hi: b.lo } }).collect();
            qs.extend((0..n).map(|j| { let b = bx(j); Bx { lo: [b.hi[0], b.lo[1]], hi: [b.hi[0] + 1, b.hi[1]] } }));
            qs.push(Bx { lo: [-100, -1000], hi: [1000, 1000] });
            let qs: Vec<(Bx<2>, Bb<2>)> = qs.into_iter().map(|b| (b, mk(f, &b))).collect();
            let w = |s: &str| format!("{n} boxes, shape {shape}, order {order}, built {how}, {s}");
            c.case();
            check_tree(f, &t, &model, &qs, c, &|| w("whole"))?;
            // entries leave one by one, every second first
            let leave: Vec<usize> = (0..n).filter(|j| j % 2 == 0).chain((0..n).filter(|j| j % 2 == 1)).collect();
            for (a, j) in leave.iter().enumerate() {
                let r = t.invalidate(j);
                ensure!(r == 1, "invalidate-count", "{}: invalidate({j}) returned {r}", w(&format!("{a} gone")));
                model.iter_mut().filter(|m| m.1 == *j).for_each(|m| m.2 = false);
                if a + 1 == n / 2 || a + 1 == n {
                    c.case();
                    check_tree(f, &t, &model, &qs, c, &|| w(&format!("{} gone", a + 1)))?;
                    let left: Vec<_> = model.iter().filter(|m| m.2).cloned().collect();
                    match t.compact() {
                        None => ensure!(left.is_empty(), "compact-empty", "{}: compact lost entries", w("half gone")),
                        Some(z) => {
                            ensure!(!left.is_empty(), "compact-ghost", "{}", w("all gone"));
                            c.case();
                            check_tree(f, &z, &left, &qs, c, &|| w("half gone, compacted"))?;
                        }
                    }
                }
            }
            c.hit("sizes");
            Ok(())
        })
    }

    /// bounding boxes of point lists and the two-point centroid
    pub fn bbox() -> Family {
        let mut fr = frames();
        fr.push(beyond());
        let k = fr.len();
        family(&format!("{}/bbox", T::NAME), (k * 27 * 27) as u64, move |i, c| {
            let mut d = Dec(i);
            let f = &fr[d.take(k)];
            if skip(f) { return Ok(()); }
            let a: I3 = lat(d.take(27), 3, 0);
            let b: I3 = lat(d.take(27), 3, 0);
            for j in 0..27 {
                let e: I3 = lat(j, 3, 0);
                let v = [a, b, e];
                let box3 = Bx { lo: std::array::from_fn(|i| a[i].min(b[i]).min(e[i])), hi: std::array::from_fn(|i| a[i].max(b[i]).max(e[i])) };
                c.case();
                c.call(4);
                let p3 = v.map(|x| pt::<T, 3>(f, &x));
                let w = || format!("{v:?} frame {}", f.name);
                let (lo, hi) = bbox3d(&p3);
                let (wl, wh) = corners(f, &box3);
                ensure!(same_pt(&lo, &wl) && same_pt(&hi, &wh), "bbox3d", "{}", w());
                let near = |p: &Point<T, 3>, q: &[Rational; 3]| (0..3).all(|i| (fl(&p[i]) - q[i].to_f64()).abs() <= 1e-9 * q[i].to_f64().abs().max(1.0));
                // the approximate boxes are held in doubles
                let holds = f.name != "beyond";
                if holds {
                    let (lo, hi) = bbox_approx3d(&p3);
                    ensure!(near(&lo, &wl) && near(&hi, &wh), "bbox-approx3d", "{}", w());
                }
                let p2 = v.map(|x| pt::<T, 2>(f, &[x[0], x[1]]));
                let (lo, hi) = bbox2d(&p2);
                ensure!((0..2).all(|i| same(&lo[i], &wl[i]) && same(&hi[i], &wh[i])), "bbox2d", "{}", w());
                if holds {
                    let (lo, hi) = bbox_approx2d(&p2);
                    ensure!((0..2).all(|i| (fl(&lo[i]) - wl[i].to_f64()).abs() <= 1e-9 * wl[i].to_f64().abs().max(1.0) && (fl(&hi[i]) - wh[i].to_f64()).abs() <= 1e-9 * wh[i].to_f64().abs().max(1.0)), "bbox-approx2d", "{}", w());
                }
                let g = centroid2(&p2[0], &p2[1]);
                ensure!((0..2).all(|i| same(&g[i], &((f.q(i, a[i]) + f.q(i, b[i])) / 2))), "centroid2", "{}", w());
            }
            Ok(())
        })
    }
}

/// lazy coordinates that carry rounding from cancelled terms: value = (big + v) - big
fn cancelled() -> Family {
    use cgar::numeric::lazy_exact::LazyExact;
    let bx = boxes::<2>(2);
    let bigs = [60u32, 70, 90];
    let m = bx.len();
    family("lazy/cancelled", (bigs.len() * m) as u64, move |i, c| {
        let mut d = Dec(i);
        let big = Rational::from(1u32) << bigs[d.take(3)];
        let a = bx[d.take(m)];
        let co = |v: i64| {
            let l = LazyExact::from(big.clone());
            let s = &l + &LazyExact::from(Rational::from((v, 3)));
            &s - &l
        };
        let plain = |v: i64| LazyExact::from(Rational::from((v, 3)));
        let mk = |b: &Bx<2>, f: &dyn Fn(i64) -> LazyExact| -> Aabb<LazyExact, 2, Point<LazyExact, 2>> {
            Aabb::from_points(&Point::from_vals(b.lo.map(|v| f(v))), &Point::from_vals(b.hi.map(|v| f(v))))
        };
        let far = Bx { lo: [9, 9], hi: [9, 9] };
        for b in &bx {
            for mode in 0..4 {
                let fa: &dyn Fn(i64) -> LazyExact = if mode & 1 == 1 { &co } else { &plain };
                let fb: &dyn Fn(i64) -> LazyExact = if mode & 2 == 2 { &co } else { &plain };
                c.case();
                c.call(3);
                let want = meet(&a, b);
                let (ga, gb) = (mk(&a, fa), mk(b, fb));
                ensure!(ga.intersects(&gb) == want, "cancelled-intersects", "{a:?} {b:?} mode {mode}");
                if let Some(x) = ga.intersects_approx(&gb) {
                    ensure!(x == want, "cancelled-approx", "{a:?} {b:?} mode {mode}");
                }
                let mut t = AabbTree::build(vec![(ga.clone(), 0usize), (mk(&far, &plain), 1)]);
                let ask = |t: &AabbTree<LazyExact, 2, Point<LazyExact, 2>, usize>| {
                    let mut v = vec![];
                    t.query(&gb, &mut v);
                    let mut u = vec![];
                    t.query_valid(&gb, &mut u);
                    (v.into_iter().copied().collect::<Vec<_>>(), u.into_iter().copied().collect::<Vec<_>>())
                };
                let (v, u) = ask(&t);
                let hit: Vec<usize> = if want { vec![0] } else { vec![] };
                ensure!(v == hit && u == hit, "cancelled-tree", "{a:?} {b:?} mode {mode}: tree gave {v:?} / {u:?}, truth {hit:?}");
                t.insert(ga.clone(), 2);
                let (mut v, mut u) = ask(&t);
                v.sort();
                u.sort();
                let hit: Vec<usize> = if want { vec![0, 2] } else { vec![] };
                ensure!(v == hit && u == hit, "cancelled-insert", "{a:?} {b:?} mode {mode}: tree gave {v:?} / {u:?}, truth {hit:?}");
            }
        }
        Ok(())
    })
}

fn with_tiny() -> Vec<Frame> {
    let mut v = frames();
    v.push(tiny());
    v.push(beyond());
    v
}
fn pick(ix: &[usize]) -> Vec<Frame> {
    let mut v: Vec<Option<Frame>> = with_tiny().into_iter().map(Some).collect();
    ix.iter().map(|&i| v[i].take().unwrap()).collect()
}

fn main() {
    let th = thorough();
    run_check(
        "C09",
        Opts {
            rule: "every box pair; every subset of a grid of boxes; every history of insert/invalidate/compact to the depth bound; each compared with a linear scan over all query boxes".into(),
            assumptions: vec!["box coordinates are lattice images; for exact numbers boxes may be closer than any double tolerance".into()],
            ..Default::default()
        },
        vec![
            sf::pairs::<2>("pairs-2d", 3, frames()), sr::pairs::<2>("pairs-2d", 3, with_tiny()), sl::pairs::<2>("pairs-2d", 2, with_tiny()),
            sf::pairs::<3>("pairs-3d", 2, frames()), sr::pairs::<3>("pairs-3d", 2, pick(&[1, 5, 6, 7])), sl::pairs::<3>("pairs-3d", 1, with_tiny()),
            sf::histories(pick(&[0, 3]), if th { 6 } else { 5 }, false), sr::histories(pick(&[5, 6]), if th { 5 } else { 4 }, false), sl::histories(pick(&[1, 7]), if th { 5 } else { 4 }, false),
            sf::histories(pick(&[0]), if th { 6 } else { 5 }, true), sl::histories(pick(&[1]), 3, true),
            sf::subsets::<2>("grid-2d", 3, frames()), sr::subsets::<2>("grid-2d", 3, pick(&[1, 5, 6, 7])), sl::subsets::<2>("grid-2d", 3, pick(&[1, 5, 6])),
            sf::subsets::<3>("grid-3d", 2, frames()), sl::subsets::<3>("grid-3d", 2, pick(&[4])),
            sf::sizes(if th { 300 } else { 140 }, pick(&[0, 3])), sr::sizes(if th { 70 } else { 40 }, pick(&[1, 5])), sl::sizes(if th { 70 } else { 40 }, pick(&[1, 7])),
            cancelled(),
            sf::bbox(), sr::bbox(), sl::bbox(),
        ],
    )
}
