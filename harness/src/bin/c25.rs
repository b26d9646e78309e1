//! C25: smoothing moves each inner vertex exactly to where it belongs and nothing else; remeshing keeps
//! the topology, the structure and the lookups, folds no flat sheet, and gives the same result each time.
use cgar::geometry::point::Point;
use cgar::geometry::spatial_element::SpatialElement;
use cgar::mesh::basic_types::Mesh;
use cgar::mesh_processing::remesh::RemeshOptions;
use cgar::numeric::cgar_f64::CgarF64;
use mc::edits;
use mc::engine::*;
use mc::ensure;
use mc::geo::*;
use mc::mesh::*;
use mc::per_scalar;
use mc::solids;
use rug::Rational;
use std::collections::{BTreeMap, BTreeSet};

type R3 = [Rational; 3];
type M3 = Mesh<CgarF64, 3>;

fn dotr(a: &R3, b: &R3) -> Rational {
    (0..3).map(|i| Rational::from(&a[i] * &b[i])).fold(Rational::new(), |x, y| x + y)
}
fn crossr(a: &R3, b: &R3) -> R3 {
    std::array::from_fn(|i| Rational::from(&a[(i + 1) % 3] * &b[(i + 2) % 3]) - Rational::from(&a[(i + 2) % 3] * &b[(i + 1) % 3]))
}
fn subr(a: &R3, b: &R3) -> R3 {
    std::array::from_fn(|i| Rational::from(&a[i] - &b[i]))
}

/// where a vertex goes, or None if it stays; also how close the decision was
fn smoothed(pos: &[R3], s: &Soup, v: usize, alpha: &Rational, max2: &Rational) -> (Option<R3>, bool) {
    let nb = s.neighbors(v);
    if nb.len() < 2 || s.border(v) {
        return (None, true);
    }
    let a = &pos[v];
    let n = nb.len() as u32;
    let mut d: R3 = std::array::from_fn(|i| nb.iter().map(|u| Rational::from(&pos[*u][i] - &a[i])).fold(Rational::new(), |x, y| x + y) / n);
    let mut nn = R3::default();
    for (_, t) in &s.tris {
        if let Some(k) = t.iter().position(|x| *x == v) {
            let c = crossr(&subr(&pos[t[(k + 1) % 3]], a), &subr(&pos[t[(k + 2) % 3]], a));
            nn = std::array::from_fn(|i| Rational::from(&nn[i] + &c[i]));
        }
    }
    let q = dotr(&nn, &nn);
    if q != 0 {
        let k = dotr(&d, &nn) / q;
        d = std::array::from_fn(|i| Rational::from(&d[i] - Rational::from(&nn[i] * &k)));
    }
    let p: R3 = std::array::from_fn(|i| Rational::from(&a[i] + Rational::from(&d[i] * alpha)));
    let worst = nb.iter().map(|u| { let e = subr(&p, &pos[*u]); dotr(&e, &e) }).max().unwrap();
    let clear = Rational::from(&worst - max2).abs() > Rational::from(max2 / 1_000_000_000u64);
    (if worst <= *max2 { Some(p) } else { None }, clear)
}

/// Euler number and border loops of each part of a surface
fn topology(s: &Soup) -> Vec<(i64, usize)> {
    fn root(p: &BTreeMap<usize, usize>, mut x: usize) -> usize {
        while p[&x] != x {
            x = p[&x];
        }
        x
    }
    fn parts(e: &[(usize, usize)]) -> BTreeMap<usize, Vec<usize>> {
        let mut p: BTreeMap<usize, usize> = e.iter().flat_map(|(a, b)| [(*a, *a), (*b, *b)]).collect();
        for (a, b) in e {
            let (a, b) = (root(&p, *a), root(&p, *b));
            p.insert(a, b);
        }
        let mut out: BTreeMap<usize, Vec<usize>> = BTreeMap::new();
        for x in p.keys() {
            out.entry(root(&p, *x)).or_default().push(*x);
        }
        out
    }
    let d: BTreeSet<(usize, usize)> = s.tris.iter().flat_map(|(_, t)| dirs(*t)).collect();
    let all: Vec<(usize, usize)> = d.iter().copied().collect();
    let mut out: Vec<(i64, usize)> = parts(&all)
        .values()
        .map(|vs| {
            let own = Soup { tris: s.tris.iter().filter(|(_, t)| vs.contains(&t[0])).copied().collect() };
            let border: Vec<(usize, usize)> = all.iter().copied().filter(|(a, b)| vs.contains(a) && !d.contains(&(*b, *a))).collect();
            (own.euler(), parts(&border).len())
        })
        .collect();
    out.sort();
    out
}
/// the same but for discs, which may shrink to nothing
fn kept(before: &[(i64, usize)], after: &[(i64, usize)]) -> bool {
    let disc = |l: &[(i64, usize)]| l.iter().filter(|x| **x == (1, 1)).count();
    let rest = |l: &[(i64, usize)]| l.iter().filter(|x| **x != (1, 1)).copied().collect::<Vec<_>>();
    rest(before) == rest(after) && disc(after) <= disc(before)
}

per_scalar! {
    use super::*;
    type M = Mesh<T, 3>;
    fn positions(m: &M) -> Option<Vec<R3>> {
        m.vertices.iter().map(|v| Some([v.position[0].val()?, v.position[1].val()?, v.position[2].val()?])).collect()
    }
    fn near(a: &Rational, b: &Rational, scale: f64) -> bool {
        if T::EXACT { a == b } else { Rational::from(a - b).to_f64().abs() <= 1e-9 * scale }
    }
    fn lookups(m: &M, c: &mut Ctx, w: &dyn Fn() -> String) -> Res {
        for v in 0..m.vertices.len() {
            if m.vertices[v].removed {
                continue;
            }
            let mut k = m.clone();
            c.call(1);
            let (u, found) = k.get_or_insert_vertex(&m.vertices[v].position.clone());
            ensure!(found && !m.vertices[u].removed && (u == v || (0..3).all(|i| near(&m.vertices[u].position[i].val().unwrap(), &m.vertices[v].position[i].val().unwrap(), 1e3))), "lookup", "{}: the place of vertex {v} is said to be vertex {u} (found {found})", w());
        }
        Ok(())
    }
    /// one vertex, and then all of them in turn
    pub fn smooth(m: &M, all_too: bool, c: &mut Ctx, w: &dyn Fn() -> String) -> Res {
        let s = Soup::of(m);
        let pos = positions(m).unwrap();
        let scale = pos.iter().flatten().map(|x| x.to_f64().abs()).fold(1.0, f64::max);
        let live: Vec<usize> = (0..m.vertices.len()).filter(|v| !m.vertices[*v].removed).collect();
        let edges: BTreeSet<(usize, usize)> = s.tris.iter().flat_map(|(_, t)| dirs(*t)).map(|(a, b)| (a.min(b), a.max(b))).collect();
        let sum = edges.iter().map(|(a, b)| { let e = subr(&pos[*a], &pos[*b]); dotr(&e, &e).to_f64() }).sum::<f64>();
        let want = if edges.is_empty() { 1.0 } else { (sum / edges.len() as f64).sqrt() };
        let got = m.compute_average_edge_length();
        c.call(1);
        ensure!((got - want).abs() <= 1e-9 * want, "length", "{} {}: the typical edge length is {got}, should be {want}", T::NAME, w());
        // every edge length occurs as a limit, just above and just below
        let mut lens: Vec<Rational> = s.tris.iter().flat_map(|(_, t)| dirs(*t)).map(|(a, b)| { let e = subr(&pos[a], &pos[b]); dotr(&e, &e) }).collect();
        lens.sort();
        let maxs: Vec<Rational> = lens.first().into_iter().chain(lens.get(lens.len() / 2)).chain(lens.last()).map(|x| Rational::from(x * 101) / 100).chain([Rational::from_f64(scale * scale * 16.0).unwrap()]).collect();
        for &v in &live {
            if s.fans(v) > 1 {
                continue;
            }
            for alpha in [Rational::from((1, 4)), Rational::from((1, 2)), Rational::from(1)] {
                for max2 in &maxs {
                    let (want, clear) = smoothed(&pos, &s, v, &alpha, max2);
                    if !clear {
                        continue;
                    }
                    let mut k = m.clone();
                    c.call(1);
                    let moved = k.smooth_tangential(v, T::of(&alpha), &T::of(max2));
                    let w = || format!("{} {}: vertex {v}, factor {alpha}, limit {max2}", T::NAME, w());
                    ensure!(moved == want.is_some(), "moved", "{}: moved is {moved}", w());
                    let got = match positions(&k) { Some(p) => p, None => return fail("finite", format!("{}: a position is not finite", w())) };
                    for u in 0..got.len() {
                        let p = match &want { Some(p) if u == v => p, _ => &pos[u] };
                        ensure!((0..3).all(|i| near(&got[u][i], &p[i], scale)), "position", "{}: vertex {u} is at {:?}, should be at {:?}", w(), got[u].each_ref().map(|x| x.to_f64()), p.each_ref().map(|x| x.to_f64()));
                    }
                    ensure!(soup(&k) == soup(m), "faces", "{}: the faces changed", w());
                    if moved {
                        lookups(&k, c, &w)?;
                    }
                    c.hit(if moved { "moved" } else if s.border(v) { "border stays" } else { "stays" });
                }
            }
        }
        if all_too && s.manifold_vertices() {
            for sweeps in 1..=2 {
                let max = Rational::from_f64(scale * 4.0).unwrap();
                let max2 = Rational::from(&max * &max);
                let mut cur = pos.clone();
                let mut count = 0;
                for _ in 0..sweeps {
                    for &v in &live {
                        if let (Some(p), _) = smoothed(&cur, &s, v, &Rational::from((1, 2)), &max2) {
                            // doubles round as they go
                            cur[v] = if T::EXACT { p } else { p.map(|x| Rational::from_f64(x.to_f64()).unwrap()) };
                            count += 1;
                        }
                    }
                }
                let mut k = m.clone();
                c.call(1);
                let n = k.smooth_vertices(sweeps, &T::of(&max));
                ensure!(n == count, "count", "{} {}: {sweeps} sweeps moved {n}, should be {count}", T::NAME, w());
                let got = positions(&k).unwrap();
                ensure!(live.iter().all(|u| (0..3).all(|i| near(&got[*u][i], &cur[*u][i], scale))), "sweeps", "{} {}: {sweeps} sweeps end elsewhere", T::NAME, w());
                lookups(&k, c, &|| format!("{} {}: {sweeps} sweeps", T::NAME, w()))?;
                c.hit("sweeps");
            }
        }
        Ok(())
    }
    pub fn mesh(pos: &[I3], ts: &[Tri]) -> M {
        let mut m = M::new();
        for p in pos {
            m.add_vertex(pt::<T, 3>(&frames()[0], p));
        }
        for t in ts {
            m.add_triangle(t[0], t[1], t[2]);
        }
        m
    }
    pub fn soups(n: usize, max: usize, all_too: bool) -> Family {
        let all = all_soups(n, max);
        family(format!("{}-smooth-meshes-{n}-{max}", T::NAME), all.len() as u64, move |i, c| {
            let ts = &all[i as usize];
            let pos: Vec<I3> = (0..n as i64).map(|v| [v * 4, v * v - 2, 3 - v * v * v]).collect();
            c.case();
            c.sample(|| format!("{ts:?}"));
            smooth(&mesh(&pos, ts), all_too, c, &|| format!("{ts:?}"))
        })
    }
    /// surfaces of every size: vertices with any number of neighbours
    pub fn sizes(max: usize, targets: Vec<f64>) -> Family {
        let all = sized(max);
        family(format!("{}-sizes-{max}", T::NAME), all.len() as u64, move |i, c| {
            let (name, n, ts) = &all[i as usize];
            let pos: Vec<I3> = (0..*n as i64).map(|v| [v, v * v % 19, v * v * v % 23]).collect();
            let m = mesh(&pos, ts);
            c.case();
            c.sample(|| name.clone());
            smooth(&m, !T::EXACT, c, &|| name.clone())?;
            for t in &targets {
                remesh(&m, *t, 2, false, false, c, &|| name.clone())?;
            }
            Ok(())
        })
    }
    /// remesh and judge
    pub fn remesh(m: &M, target: f64, rounds: usize, flat: bool, closed: bool, c: &mut Ctx, w: &dyn Fn() -> String) -> Res {
        let mut o = RemeshOptions::new(T::of(&Rational::from_f64(target).unwrap()));
        o.max_iterations = rounds;
        let w = || format!("{} {}: target {target}, {rounds} rounds", T::NAME, w());
        let go = || {
            let mut k = m.clone();
            let r = guarded(|| k.isotropic_remesh(&o).is_ok());
            (k, r)
        };
        if !Soup::of(m).manifold_vertices() {
            c.hit("sheets that touch in a vertex");
            return Ok(());
        }
        c.case();
        c.call(2);
        c.tick();
        let (k, r) = go();
        match r {
            Ok(ok) => ensure!(ok, "remesh-refused", "{}: refused", w()),
            Err(e) => return fail("remesh-panic", format!("{}: {e}", w())),
        }
        if let Err(e) = invariants(&k) {
            return fail("remesh-mesh", format!("{}: {e}", w()));
        }
        let (before, after) = (topology(&Soup::of(m)), topology(&Soup::of(&k)));
        ensure!(kept(&before, &after), "remesh-topology", "{}: Euler number and border loops of each part were {before:?} and are {after:?}", w());
        ensure!(Soup::of(&k).manifold_vertices(), "remesh-pinched", "{}: sheets now touch in a vertex", w());
        let pos = match positions(&k) { Some(p) => p, None => return fail("remesh-finite", format!("{}: a position is not finite", w())) };
        lookups(&k, c, &w)?;
        if flat {
            for t in soup(&k) {
                let n = crossr(&subr(&pos[t[1]], &pos[t[0]]), &subr(&pos[t[2]], &pos[t[0]]));
                ensure!(n[2] > 0, "remesh-folded", "{}: the triangle {:?} is folded over", w(), t.map(|v| pos[v].each_ref().map(|x| x.to_f64())));
            }
            ensure!(live_faces(&k).iter().all(|f| face_tri(&k, *f).iter().all(|v| pos[*v][2].to_f64().abs() < 1e-9)), "remesh-left", "{}: a vertex left the plane", w());
        }
        // the right way: finer if all edges are far too long, coarser if all are far too short
        let lens = |m: &M, p: &[R3]| -> Vec<f64> { soup(m).iter().flat_map(|t| dirs(*t)).map(|(u, v)| { let e = subr(&p[u], &p[v]); dotr(&e, &e).to_f64().sqrt() / target }).collect() };
        let (was, is) = (soup(m).len(), soup(&k).len());
        let old = positions(m).unwrap();
        let ls = lens(m, &old);
        // two triangles back to back cannot be split, and halves of thin ones have short edges
        let back = soup(m).iter().any(|t| soup(m).iter().any(|u| u != t && (0..3).all(|i| u.contains(&t[i]))));
        let thin = soup(m).iter().any(|t| {
            let (u, v) = (subr(&old[t[1]], &old[t[0]]), subr(&old[t[2]], &old[t[0]]));
            let n = crossr(&u, &v);
            let long = t.iter().flat_map(|a| t.iter().map(|b| { let e = subr(&old[*a], &old[*b]); dotr(&e, &e).to_f64() })).fold(0.0, f64::max);
            dotr(&n, &n).to_f64() < long * target * target
        });
        if ls.iter().all(|l| *l > 2.0) && !back && !thin {
            ensure!(is > was, "remesh-finer", "{}: {was} triangles with edges of more than twice the target became {is}", w());
        }
        if ls.iter().all(|l| *l < 0.5) && (flat || closed) {
            ensure!(is < was, "remesh-coarser", "{}: {was} triangles with edges of less than half the target became {is}", w());
        }
        if rounds == 1 && ls.iter().all(|l| (0.9..1.1).contains(l)) {
            ensure!(is == was, "remesh-left-alone", "{}: {was} triangles with edges of the target length became {is}", w());
        }
        if rounds >= 10 && flat {
            let worst = lens(&k, &pos).into_iter().fold(0.0, f64::max);
            ensure!(worst <= 3.0, "remesh-long", "{}: an edge of {worst} times the target is left", w());
        }
        let (l, _) = go();
        ensure!(soup(&l) == soup(&k) && positions(&l) == Some(pos), "remesh-again", "{}: the same call gave another mesh", w());
        c.hit(if soup(&k).len() > soup(m).len() { "refined" } else if soup(&k).len() < soup(m).len() { "coarsened" } else { "same size" });
        Ok(())
    }
    pub fn remesh_soups(n: usize, max: usize) -> Family {
        let all: Vec<Vec<Tri>> = all_soups(n, max).into_iter().filter(|t| !t.is_empty()).collect();
        family(format!("{}-remesh-meshes-{n}-{max}", T::NAME), all.len() as u64, move |i, c| {
            let ts = &all[i as usize];
            let pos: Vec<I3> = (0..n as i64).map(|v| [v * 4, v * v - 2, 3 - v * v * v]).collect();
            let m = mesh(&pos, ts);
            c.sample(|| format!("{ts:?}"));
            for target in [2.0, 8.0, 64.0, 512.0] {
                for rounds in 1..=2 {
                    remesh(&m, target, rounds, false, false, c, &|| format!("{ts:?}"))?;
                }
            }
            Ok(())
        })
    }
    /// sheets and solids whose edges are all about as long, at every quarter of that length
    pub fn even(sheets: Vec<(i64, i64)>, targets: usize, rounds: usize) -> Family {
        let mut all: Vec<(String, Vec<I3>, Vec<Tri>, i64)> = vec![];
        for (a, b) in &sheets {
            let (a, b) = (*a, *b);
            let pos = (0..=a).flat_map(|x| (0..=b).map(move |y| [8 * x + 4 * y, 7 * y, 0])).collect();
            let at = |x: i64, y: i64| (x * (b + 1) + y) as usize;
            let ts = (0..a).flat_map(|x| (0..b).flat_map(move |y| [[at(x, y), at(x + 1, y), at(x, y + 1)], [at(x + 1, y), at(x + 1, y + 1), at(x, y + 1)]])).collect();
            all.push((format!("sheet {a} x {b}"), pos, ts, 8));
        }
        all.push(("tetrahedron".into(), vec![[6, 6, 6], [6, 0, 0], [0, 6, 0], [0, 0, 6]], vec![[0, 1, 2], [0, 2, 3], [0, 3, 1], [1, 3, 2]], 8));
        let octa = vec![[0, 2, 4], [2, 1, 4], [1, 3, 4], [3, 0, 4], [2, 0, 5], [1, 2, 5], [3, 1, 5], [0, 3, 5]];
        all.push(("octahedron".into(), vec![[6, 0, 0], [-6, 0, 0], [0, 6, 0], [0, -6, 0], [0, 0, 6], [0, 0, -6]], octa, 8));
        family(format!("{}-remesh-even-{}-{targets}-{rounds}", T::NAME, sheets.len()), (all.len() * targets * rounds) as u64, move |i, c| {
            let mut d = Dec(i);
            let (name, pos, ts, len) = &all[d.take(all.len())];
            let target = *len as f64 * (1 + d.take(targets)) as f64 / 4.0;
            let sheet = name.starts_with("sheet");
            let inner = pos.len() > ts.len();
            remesh(&mesh(pos, ts), target, 1 + d.take(rounds), sheet && !inner, !sheet && name != "tetrahedron", c, &|| name.clone())
        })
    }
    /// no target: the typical edge length; no rounds: nothing happens
    pub fn unasked(sheets: i64, rounds: usize) -> Family {
        let all: Vec<(i64, i64)> = (1..=sheets).flat_map(|a| (1..=sheets).map(move |b| (a, b))).collect();
        family(format!("{}-remesh-unasked", T::NAME), (all.len() * 2 * (rounds + 1)) as u64, move |i, c| {
            let mut d = Dec(i);
            let (a, b) = all[d.take(all.len())];
            let bent = d.take(2) as i64;
            let rounds = d.take(rounds + 1);
            let pos: Vec<I3> = (0..=a).flat_map(|x| (0..=b).map(move |y| [8 * x + 4 * y, 7 * y, bent * ((x * x + y) % 3)])).collect();
            let at = |x: i64, y: i64| (x * (b + 1) + y) as usize;
            let ts: Vec<Tri> = (0..a).flat_map(|x| (0..b).flat_map(move |y| [[at(x, y), at(x + 1, y), at(x, y + 1)], [at(x + 1, y), at(x + 1, y + 1), at(x, y + 1)]])).collect();
            let m = mesh(&pos, &ts);
            let go = |target: f64| {
                let mut o = RemeshOptions::new(T::of(&Rational::from_f64(target).unwrap()));
                o.max_iterations = rounds;
                let mut k = m.clone();
                let r = guarded(|| k.isotropic_remesh(&o).is_ok());
                (k, r)
            };
            let w = |t: f64| format!("{} {a} x {b} sheet, bent {bent}: target {t}, {rounds} rounds", T::NAME);
            let typical = m.compute_average_edge_length();
            let (k, r) = go(typical);
            ensure!(r == Ok(true), "remesh-refused", "{}: {r:?}", w(typical));
            for t in [0.0, -2.0] {
                c.case();
                c.call(1);
                let (l, r) = go(t);
                ensure!(r == Ok(true), "remesh-refused", "{}: {r:?}", w(t));
                ensure!(soup(&l) == soup(&k), "remesh-unasked", "{}: {:?}, with the typical length {typical} {:?}", w(t), soup(&l), soup(&k));
                let (p, q) = (positions(&l).unwrap(), positions(&k).unwrap());
                ensure!(p.iter().flatten().zip(q.iter().flatten()).all(|(x, y)| (x.to_f64() - y.to_f64()).abs() < 1e-9), "remesh-unasked", "{}: other places than with the typical length {typical}", w(t));
            }
            if rounds == 0 {
                for t in [0.5, 8.0, 100.0] {
                    c.case();
                    c.call(1);
                    let (l, r) = go(t);
                    ensure!(r == Ok(true) && soup(&l) == soup(&m) && positions(&l) == positions(&m), "remesh-no-rounds", "{}: the mesh changed", w(t));
                }
            }
            c.hit("no target given");
            Ok(())
        })
    }
    /// flat grids with every choice of diagonals, one inner corner displaced
    pub fn grids(a: usize, b: usize, targets: Vec<f64>, rounds: usize) -> Family {
        let cells = a * b;
        let shifts: Vec<[i64; 2]> = (-3..=3).flat_map(|x| (-3..=3).map(move |y| [x, y])).collect();
        family(format!("{}-remesh-grid-{a}x{b}-{rounds}", T::NAME), (shifts.len() as u64) << cells, move |i, c| {
            let mut d = Dec(i);
            let sh = shifts[d.take(shifts.len())];
            let pos: Vec<I3> = (0..=a).flat_map(|x| (0..=b).map(move |y| (x, y))).map(|(x, y)| {
                let mut p = [4 * x as i64, 4 * y as i64, 0];
                if x == 1 && y == 1 && a > 1 && b > 1 {
                    p = [p[0] + sh[0], p[1] + sh[1], 0];
                }
                p
            }).collect();
            let at = |x: usize, y: usize| x * (b + 1) + y;
            let mut ts: Vec<Tri> = vec![];
            for x in 0..a {
                for y in 0..b {
                    let q = [at(x, y), at(x + 1, y), at(x + 1, y + 1), at(x, y + 1)];
                    let s = d.take(2);
                    ts.extend([[q[s], q[s + 1], q[s + 2]], [q[s], q[s + 2], q[(s + 3) % 4]]]);
                }
            }
            if ts.iter().any(|t| area(&pos, t) <= 0) {
                return Ok(());
            }
            let m = mesh(&pos, &ts);
            for t in &targets {
                remesh(&m, *t, rounds, true, false, c, &|| format!("grid {pos:?} {ts:?}"))?;
            }
            Ok(())
        })
    }
}
fn area(p: &[I3], t: &Tri) -> i64 {
    (p[t[1]][0] - p[t[0]][0]) * (p[t[2]][1] - p[t[0]][1]) - (p[t[1]][1] - p[t[0]][1]) * (p[t[2]][0] - p[t[0]][0])
}

fn walk(m: &M3, md: &edits::Model, trace: &mut Vec<edits::Op>, left: usize, targets: &[f64], c: &mut Ctx, name: &str) -> Res {
    c.tick();
    c.case();
    sf::smooth(m, true, c, &|| format!("{name}: {trace:?}"))?;
    for t in targets {
        sf::remesh(m, *t, 2, false, false, c, &|| format!("{name}: {trace:?}"))?;
    }
    if left == 0 {
        return Ok(());
    }
    for op in md.ops() {
        trace.push(op);
        let (mut k, mut kd) = (m.clone(), md.clone());
        c.call(1);
        if edits::step(&mut k, &mut kd, op, &|| format!("{name}: {trace:?}"))? && !kd.live.is_empty() {
            walk(&k, &kd, trace, left - 1, targets, c, name)?;
        }
        trace.pop();
    }
    Ok(())
}
fn edited(depth: usize) -> Vec<Family> {
    surfaces()
        .into_iter()
        .map(|(name, n, ts)| {
            let (m, md) = edits::start(n, &ts);
            let ops = md.ops();
            let f = edits::FINE as f64;
            family(format!("edited-{}", name.replace(' ', "-")), ops.len() as u64, move |i, c| {
                let op = ops[i as usize];
                let (mut k, mut kd) = (m.clone(), md.clone());
                c.call(1);
                c.sample(|| format!("{name}: all histories of {depth} edits that begin with {op:?}"));
                if edits::step(&mut k, &mut kd, op, &|| format!("{name}: {op:?}"))? && !kd.live.is_empty() {
                    walk(&k, &kd, &mut vec![op], depth - 1, &[f * 4.0, f * 64.0, f * 1024.0], c, name)?;
                }
                Ok(())
            })
        })
        .collect()
}

/// solids made of cells
fn blocks(n: [i64; 3], targets: Vec<f64>, rounds: usize) -> Family {
    let all: Vec<solids::Solid> = [false, true].into_iter().flat_map(|d| solids::blocks(n[0], n[1], n[2], 2, d)).chain([false, true].into_iter().flat_map(|d| solids::big(2, d))).collect();
    family(format!("f64-remesh-blocks-{}x{}x{}", n[0], n[1], n[2]), all.len() as u64, move |i, c| {
        let s = &all[i as usize];
        let m = sf::mesh(&s.pts, &s.tris);
        for t in &targets {
            sf::remesh(&m, *t, rounds, false, true, c, &|| s.name.clone())?;
        }
        Ok(())
    })
}

fn main() {
    let th = thorough() as usize;
    let mut f = vec![];
    f.push(sf::soups(4, 20, true));
    f.push(sr::soups(4, 20, true));
    f.push(sl::soups(4, 20, true));
    f.push(sf::soups(5, 20, true));
    f.push(sr::soups(5, 20, false));
    f.push(sf::sizes(48 + 24 * th, vec![4.0, 16.0, 48.0]));
    f.push(sr::sizes(12, vec![]));
    f.push(sf::remesh_soups(4, 20));
    f.push(sr::remesh_soups(4, 2));
    f.push(sf::remesh_soups(5, 20));
    let lens = vec![1.5, 2.0, 2.5, 3.0, 4.0, 6.0, 9.0];
    f.push(sf::grids(2, 1, lens.clone(), 10));
    f.push(sf::grids(2, 2, lens.clone(), 10));
    f.push(sf::grids(3, 2, lens.clone(), 10));
    f.push(sf::grids(3, 3, vec![2.5, 4.0, 6.0], 3 + 3 * th));
    f.push(sr::grids(2, 2, vec![3.0, 6.0], 1));
    f.push(sl::grids(2, 2, vec![3.0, 6.0], 1));
    let few = vec![(1, 1), (2, 1), (2, 2), (3, 2), (3, 3)];
    let more: Vec<(i64, i64)> = (1..=24 + 6 * th as i64).flat_map(|a| (1..=a.min(8)).map(move |b| (a, b))).collect();
    f.push(sf::even(few.clone(), 12, 10));
    f.push(sf::even(more, 12, 3));
    f.push(sf::unasked(4, 3));
    f.push(sr::unasked(2, 2));
    f.push(sl::unasked(2, 1));
    f.push(sr::even(few.clone(), 12, 2));
    f.push(sl::even(few, 12, 2));
    f.push(blocks([2, 2, 1], vec![0.7, 1.0, 1.5, 2.0, 4.0], 3));
    f.push(blocks([2, 2, 2], vec![1.0, 2.0], 2 + th));
    f.extend(edited(2));
    run_check(
        "C25",
        Opts {
            rule: "every small mesh, every flat grid with every choice of diagonals and every edit history to the depth, smoothed at every vertex and remeshed to every listed length".into(),
            assumptions: vec![],
            ..Default::default()
        },
        f,
    )
}
