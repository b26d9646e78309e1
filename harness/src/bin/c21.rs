//! C21: constrained triangulations hold every constraint and still fill the hull.
use cgar::geometry::Point2;
use cgar::mesh::basic_types::Mesh;
use cgar::mesh_processing::batching::FaceJobUV;
use cgar::operations::triangulation::delaunay::{Delaunay, triangles_inside_for_job};
use mc::engine::*;
use mc::ensure;
use mc::geo::*;
use mc::mesh::{Tri, dirs};
use mc::per_scalar;
use mc::plane::*;
use std::collections::BTreeSet;

/// pieces of a segment between the points on it
fn pieces(pts: &[I2], s: [usize; 2]) -> Vec<(usize, usize)> {
    let (a, b) = (pts[s[0]], pts[s[1]]);
    let mut on: Vec<usize> = (0..pts.len()).filter(|k| *k == s[0] || *k == s[1] || between(&pts[*k], &a, &b)).collect();
    on.sort_by_key(|k| (pts[*k][0] - a[0]) * (b[0] - a[0]) + (pts[*k][1] - a[1]) * (b[1] - a[1]));
    on.windows(2).map(|w| (w[0].min(w[1]), w[0].max(w[1]))).collect()
}
/// every list of at most n segments between the points, no two of which cross
fn lists(pts: &[I2], n: usize) -> Vec<Vec<[usize; 2]>> {
    let mut segs = vec![];
    for a in 0..pts.len() {
        for b in a + 1..pts.len() {
            segs.push([a, b]);
        }
    }
    let ok = |s: &[usize; 2], t: &[usize; 2]| !cross(&pts[s[0]], &pts[s[1]], &pts[t[0]], &pts[t[1]]);
    let mut out: Vec<Vec<[usize; 2]>> = vec![vec![]];
    let mut last: Vec<(Vec<[usize; 2]>, usize)> = vec![(vec![], 0)];
    for _ in 0..n {
        let mut next = vec![];
        for (l, from) in &last {
            for i in *from..segs.len() {
                if l.iter().all(|s| ok(s, &segs[i])) {
                    let mut m = l.clone();
                    m.push(segs[i]);
                    out.push(m.clone());
                    next.push((m, i + 1));
                }
            }
        }
        last = next;
    }
    out
}

per_scalar! {
    pub mod d {
        use super::*;
        fn frs(which: &[usize]) -> Vec<Frame> {
            let all = || frames().into_iter().chain([beyond()]).collect::<Vec<_>>();
            which.iter().map(|i| all().remove(*i)).filter(|f| T::EXACT || (f.dyadic && !f.exact_only)).collect()
        }
        fn judge(sig: &'static str, pts: &[I2], segs: &[[usize; 2]], tris: &[Tri], w: &dyn Fn() -> String) -> Res {
            if let Err((s, e)) = triangulates(pts, tris, 1) {
                return fail(format!("{sig}-{s}"), format!("{}: {e}; triangles {tris:?}", w()));
            }
            let have: BTreeSet<(usize, usize)> = tris.iter().flat_map(|t| dirs(*t)).map(|(a, b)| (a.min(b), a.max(b))).collect();
            for s in segs {
                for p in pieces(pts, *s) {
                    ensure!(have.contains(&p), format!("{sig}-missing"), "{}: no edge {p:?}; triangles {tris:?}", w());
                }
            }
            Ok(())
        }
        fn one(fr: &Frame, pts: &[I2], segs: &[[usize; 2]], corner: bool, c: &mut Ctx) -> Res {
            c.case();
            let p: Vec<Point2<T>> = pts.iter().map(|q| pt::<T, 2>(fr, q)).collect();
            let job = FaceJobUV { face_id: 0, verts_global: (0..pts.len()).collect(), points_uv: p.clone(), segments: segs.to_vec() };
            let mesh = Mesh::<T, 3>::new();
            let w = || format!("{} {} points {pts:?} segments {segs:?}", T::NAME, fr.name);
            c.call(2);
            let d = Delaunay::build_with_constraints_bowyer_watson(&p, segs, &mesh, &job);
            let tris: Vec<Tri> = d.triangles.iter().map(|t| [t.0, t.1, t.2]).collect();
            judge("single", pts, segs, &tris, &w)?;
            let mut all = Delaunay::build_batch_with_constraints_bowyer_watson(&[job], &mesh);
            ensure!(all.len() == 1, "batch", "{}: {} results", w(), all.len());
            let d = all.remove(0);
            let tris: Vec<Tri> = d.triangles.iter().map(|t| [t.0, t.1, t.2]).collect();
            judge("batch", pts, segs, &tris, &w)?;
            // inside and outside are told apart in doubles
            if corner && fr.name != "beyond" {
                c.call(1);
                let ins = triangles_inside_for_job(&d.points, &d.triangles, segs);
                ensure!(ins.len() == tris.len(), "inside", "{}: only {ins:?} of {tris:?} count as inside", w());
            }
            c.hit(match segs.len() { 0 => "no segment", 1 => "one segment", 2 => "two segments", _ => "more segments" });
            Ok(())
        }
        /// a big triangle with k of its lattice points and lists of segments
        pub fn faces(tri: [I2; 3], k: usize, n: usize, which: &[usize]) -> Family {
            let frs = frs(which);
            let all: Vec<I2> = (0..=6i64).flat_map(|x| (0..=6i64).map(move |y| [x, y])).filter(|p| !tri.contains(p) && (0..3).all(|i| area2(&tri[i], &tri[(i + 1) % 3], p) >= 0)).collect();
            let sets = subsets(all.len(), k);
            family(format!("{}-faces-{k}-points-{n}-segments-{}", T::NAME, all.len()), (frs.len() * sets.len()) as u64, move |i, c| {
                let mut d = Dec(i);
                let fr = &frs[d.take(frs.len())];
                let s = &sets[d.take(sets.len())];
                let pts: Vec<I2> = tri.iter().copied().chain(s.iter().map(|j| all[*j])).collect();
                for l in lists(&pts, n) {
                    one(fr, &pts, &l, true, c)?;
                }
                Ok(())
            })
        }
        /// every sequence of jobs: result i belongs to job i
        pub fn batches(len: usize) -> Family {
            let jobs: Vec<(Vec<I2>, Vec<[usize; 2]>)> = vec![
                (vec![], vec![]),
                (vec![[0, 0], [5, 5]], vec![[0, 1]]),
                (vec![[0, 0], [1, 1], [3, 3]], vec![[0, 2]]),
                (vec![[0, 0], [4, 0], [0, 4]], vec![]),
                (vec![[0, 0], [4, 0], [4, 4], [0, 4]], vec![[0, 2]]),
                (vec![[0, 0], [4, 0], [4, 4], [0, 4]], vec![[1, 3]]),
                (vec![[0, 0], [6, 0], [0, 6], [1, 1], [2, 3], [4, 1]], vec![[0, 4], [2, 5]]),
            ];
            let fr = frames().remove(0);
            let n = jobs.len();
            family(format!("{}-batches-{len}", T::NAME), n.pow(len as u32) as u64, move |i, c| {
                let mut d = Dec(i);
                let pick: Vec<usize> = (0..len).map(|_| d.take(n)).collect();
                let list: Vec<FaceJobUV<T>> = pick
                    .iter()
                    .map(|j| FaceJobUV { face_id: *j, verts_global: (0..jobs[*j].0.len()).collect(), points_uv: jobs[*j].0.iter().map(|q| pt::<T, 2>(&fr, q)).collect(), segments: jobs[*j].1.clone() })
                    .collect();
                c.case();
                c.call(len as u64);
                let all = Delaunay::build_batch_with_constraints_bowyer_watson(&list, &Mesh::<T, 3>::new());
                let w = || format!("{} jobs {pick:?}", T::NAME);
                ensure!(all.len() == len, "batch-count", "{}: {} results", w(), all.len());
                for (k, j) in pick.iter().enumerate() {
                    ensure!(all[k].points == list[k].points_uv, "batch-order", "{}: result {k} is not for job {k}", w());
                    let tris: Vec<Tri> = all[k].triangles.iter().map(|t| [t.0, t.1, t.2]).collect();
                    judge("batches", &jobs[*j].0, if hull2(&jobs[*j].0) == 0 { &[] } else { &jobs[*j].1 }, &tris, &w)?;
                }
                c.hit("batch");
                Ok(())
            })
        }
        /// one segment through every choice of points on it, numbered in every order, with points close to it on either side of each piece
        pub fn beads(gaps: usize, which: &[usize]) -> Family {
            let frs = frs(which);
            let maps: [[i64; 4]; 3] = [[1, 0, 0, 1], [0, -1, 1, 0], [1, 1, 1, 2]];
            let mids = gaps - 1;
            family(format!("{}-beads-{gaps}", T::NAME), (frs.len() * maps.len() * 4usize.pow(gaps as u32) * 2) as u64 * (1 << mids), move |i, c| {
                let mut d = Dec(i);
                let fr = &frs[d.take(frs.len())];
                let m = maps[d.take(maps.len())];
                let first = d.take(2) == 0;
                let mut rest: Vec<I2> = vec![[2 * gaps as i64, 12], [2 * gaps as i64, -12]];
                for g in 0..gaps {
                    let near = d.take(4);
                    if near & 1 != 0 {
                        rest.push([4 * g as i64 + 2, 1]);
                    }
                    if near & 2 != 0 {
                        rest.push([4 * g as i64 + 2, -1]);
                    }
                }
                let line: Vec<I2> = [0, gaps].into_iter().chain((1..gaps).filter(|_| d.take(2) == 1)).map(|k| [4 * k as i64, 0]).collect();
                for order in orders(line.len()) {
                    let on: Vec<I2> = order.iter().map(|k| line[*k]).collect();
                    let mut pts: Vec<I2> = if first { on.iter().chain(&rest).copied().collect() } else { rest.iter().chain(&on).copied().collect() };
                    let at = |p: I2| pts.iter().position(|q| *q == p).unwrap();
                    let s = [at(line[0]), at(line[1])];
                    for p in pts.iter_mut() {
                        *p = [m[0] * p[0] + m[1] * p[1], m[2] * p[0] + m[3] * p[1]];
                    }
                    one(fr, &pts, &[s], false, c)?;
                }
                c.hit("numbered in every order");
                Ok(())
            })
        }
        /// lattices of every size with every single segment between two of their points
        pub fn sizes(a: i64, b: i64, which: &[usize]) -> Family {
            let frs = frs(which);
            family(format!("{}-sizes-{a}x{b}", T::NAME), (frs.len() as i64 * (a - 1) * (b - 1) * 2) as u64, move |i, c| {
                let mut d = Dec(i);
                let fr = &frs[d.take(frs.len())];
                let back = d.take(2) == 1;
                let (a, b) = (d.take(a as usize - 1) as i64 + 2, d.take(b as usize - 1) as i64 + 2);
                let n = (a * b) as usize;
                let pts: Vec<I2> = (0..n as i64).map(|k| if back { n as i64 - 1 - k } else { k }).map(|k| [k % a, k / a]).collect();
                for p in 0..n {
                    for q in p + 1..n {
                        one(fr, &pts, &[[p, q]], false, c)?;
                    }
                }
                c.hit("lattice of every size");
                Ok(())
            })
        }
        /// every triangulation of a convex polygon asked for by its diagonals
        pub fn diagonals(k: usize, which: &[usize]) -> Family {
            let frs = frs(which);
            let mut all: Vec<I2> = (-5..=5i64).flat_map(|x| (-5..=5i64).map(move |y| [x, y])).filter(|p| p[0] * p[0] + p[1] * p[1] == 25).collect();
            all.sort_by(|p, q| (p[1] as f64).atan2(p[0] as f64).total_cmp(&(q[1] as f64).atan2(q[0] as f64)));
            let sets = subsets(all.len(), k);
            fn tris(from: usize, to: usize) -> Vec<Vec<Tri>> {
                if to - from < 2 { return vec![vec![]]; }
                (from + 1..to).flat_map(|m| {
                    let (l, r) = (tris(from, m), tris(m, to));
                    l.into_iter().flat_map(move |x| { let r = r.clone(); r.into_iter().map(move |y| x.iter().chain(&y).copied().chain([[from, m, to]]).collect()).collect::<Vec<_>>() }).collect::<Vec<_>>()
                }).collect()
            }
            let want = tris(0, k - 1);
            family(format!("{}-diagonals-{k}", T::NAME), (frs.len() * sets.len()) as u64, move |i, c| {
                let mut d = Dec(i);
                let fr = &frs[d.take(frs.len())];
                let pts: Vec<I2> = sets[d.take(sets.len())].iter().map(|j| all[*j]).collect();
                for t in &want {
                    // no two of them cross, so together they leave no choice
                    let segs: BTreeSet<(usize, usize)> = t.iter().flat_map(|x| dirs(*x)).map(|(a, b)| (a.min(b), a.max(b))).filter(|(a, b)| b - a > 1 && (*a, *b) != (0, k - 1)).collect();
                    let segs: Vec<[usize; 2]> = segs.into_iter().map(|(a, b)| [a, b]).collect();
                    one(fr, &pts, &segs, false, c)?;
                }
                c.hit("every diagonal given");
                Ok(())
            })
        }
        /// all sets of k points of an a x b lattice and lists of segments
        pub fn sets(a: i64, b: i64, k: usize, n: usize, which: &[usize]) -> Family {
            let frs = frs(which);
            let all: Vec<I2> = (0..a).flat_map(|x| (0..b).map(move |y| [x, y])).collect();
            let sets = subsets(all.len(), k);
            family(format!("{}-sets-{a}x{b}-{k}-points-{n}-segments", T::NAME), (frs.len() * sets.len()) as u64, move |i, c| {
                let mut d = Dec(i);
                let fr = &frs[d.take(frs.len())];
                let s = &sets[d.take(sets.len())];
                let pts: Vec<I2> = s.iter().map(|j| all[*j]).collect();
                if hull2(&pts) == 0 {
                    return Ok(());
                }
                for l in lists(&pts, n) {
                    one(fr, &pts, &l, false, c)?;
                }
                Ok(())
            })
        }
    }
}
fn subsets(n: usize, k: usize) -> Vec<Vec<usize>> {
    fn go(n: usize, k: usize, from: usize, cur: &mut Vec<usize>, out: &mut Vec<Vec<usize>>) {
        if cur.len() == k {
            out.push(cur.clone());
            return;
        }
        for i in from..n {
            cur.push(i);
            go(n, k, i + 1, cur, out);
            cur.pop();
        }
    }
    let mut out = vec![];
    go(n, k, 0, &mut vec![], &mut out);
    out
}

/// every order of n things
fn orders(n: usize) -> Vec<Vec<usize>> {
    if n == 0 {
        return vec![vec![]];
    }
    orders(n - 1).into_iter().flat_map(|o| (0..n).map(move |k| { let mut p = o.clone(); p.insert(k, n - 1); p })).collect()
}

fn main() {
    let th = thorough() as usize;
    let t4: [I2; 3] = [[0, 0], [4, 0], [0, 4]];
    let t6: [I2; 3] = [[0, 1], [6, 0], [4, 5]];
    let mut f = vec![];
    for k in 1..=3 {
        f.push(sf::d::faces(t4, k, 3, &[0, 2]));
        f.push(sf::d::faces(t6, k, 2, &[0, 3]));
        f.push(sr::d::faces(t4, k, 2, &[0, 1, 4, 6]));
        f.push(sl::d::faces(t4, k, 2, &[0, 1]));
    }
    f.push(sf::d::faces(t4, 4, 2 + th, &[0]));
    f.push(sf::d::faces(t6, 4, 1 + th, &[0]));
    for k in 3..=6 {
        f.push(sf::d::sets(4, 4, k, 2, &[0]));
    }
    f.push(sf::d::sets(5, 3, 7, 2, &[0]));
    f.push(sf::d::batches(1));
    f.push(sf::d::batches(3 + th));
    f.push(sr::d::sets(4, 3, 5, 2, &[1, 6]));
    f.push(sl::d::sets(4, 3, 5, 2, &[1]));
    for g in 2..=3 + th {
        f.push(sf::d::beads(g, &[0, 2]));
    }
    f.push(sr::d::beads(2 + th, &[1]));
    f.push(sl::d::beads(2 + th, &[1, 6]));
    f.push(sf::d::sizes(8, 7 + th as i64, &[0, 3]));
    f.push(sr::d::sizes(6, 5, &[1]));
    f.push(sl::d::sizes(4, 4, &[5]));
    for k in 4..=8 {
        f.push(sf::d::diagonals(k, &[0, 2]));
    }
    f.push(sr::d::diagonals(6, &[1]));
    f.push(sl::d::diagonals(5, &[5, 6]));
    run_check(
        "C21",
        Opts {
            rule: "every choice of up to four further lattice points of two triangles and of up to seven points of small lattices, with every list of up to three segments between them of which no two cross, and one segment through up to three points on it numbered in every order".into(),
            assumptions: vec!["segments that cross away from the points are not given".into()],
            ..Default::default()
        },
        f,
    )
}
