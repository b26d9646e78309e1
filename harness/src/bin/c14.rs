//! C14: collapsing an edge merges its two ends and drops exactly its triangles, or refuses and
//! changes nothing; it refuses exactly the collapses that would break the surface.
use cgar::geometry::point::Point;
use cgar::mesh::basic_types::Mesh;
use cgar::mesh::edge_collapse::{CollapseOpts, Midpoint, Placement};
use cgar::numeric::cgar_f64::CgarF64;
use cgar::numeric::scalar::Scalar;
use mc::engine::*;
use mc::ensure;
use mc::geo::*;
use mc::mesh::*;
use mc::per_scalar;
use std::collections::{BTreeMap, BTreeSet};

type M3 = Mesh<CgarF64, 3>;
type Faces = BTreeMap<usize, Tri>;

/// put the merged vertex at a given place
struct At<T: Scalar, const N: usize>(Point<T, N>);
impl<T: Scalar, const N: usize> Placement<T, N> for At<T, N> {
    fn place(&self, _: &Mesh<T, N>, _: usize, _: usize) -> Point<T, N> {
        self.0.clone()
    }
}

fn blank3(n: usize) -> M3 {
    let mut m = M3::new();
    for i in 0..n {
        let x = i as f64;
        m.add_vertex(Point { coords: [CgarF64(x), CgarF64(x * x), CgarF64(x * x * x)] });
    }
    m
}

fn faces_of<T: Scalar, const N: usize>(m: &Mesh<T, N>) -> Faces {
    live_faces(m).into_iter().map(|f| (f, face_tri(m, f))).collect()
}
fn as_soup(f: &Faces) -> Soup {
    Soup { tris: f.iter().map(|(a, b)| (*a, *b)).collect() }
}

/// may u-v be collapsed as far as connectivity goes
fn topologically(s: &Soup, u: usize, v: usize) -> bool {
    let (l, r) = (s.dir(u, v).map(|x| x.1), s.dir(v, u).map(|x| x.1));
    let opp: BTreeSet<usize> = [l, r].into_iter().flatten().collect();
    if opp.is_empty() || l == r {
        return false;
    }
    let common: BTreeSet<usize> = s.neighbors(u).intersection(&s.neighbors(v)).copied().collect();
    if common != opp {
        return false;
    }
    // two border vertices joined through the inside: what is left would be pinched
    let whole = s.faces_of(u) == s.faces_of(v);
    whole || !(l.is_some() && r.is_some() && s.border(u) && s.border(v))
}

fn collapsed(f: &Faces, u: usize, v: usize) -> Faces {
    f.iter()
        .filter(|(_, t)| !(t.contains(&u) && t.contains(&v)))
        .map(|(i, t)| (*i, canon(t.map(|x| if x == v { u } else { x }))))
        .collect()
}

/// after the call: either all as before or exactly the collapse
fn settle<T: Scalar, const N: usize>(m: &Mesh<T, N>, before: &Mesh<T, N>, want: &Faces, u: usize, v: usize, done: Option<&Point<T, N>>, w: &dyn Fn() -> String) -> Res {
    if let Err(e) = invariants(m) {
        return fail("structure", format!("{}: {e}", w()));
    }
    ensure!(faces_of(m) == *want, "triangles", "{}: triangles {:?}, should be {want:?}", w(), faces_of(m));
    ensure!(m.vertices.len() == before.vertices.len(), "vertex-count", "{}: the number of vertices changed", w());
    for i in 0..m.vertices.len() {
        let gone = before.vertices[i].removed || done.is_some() && i == v;
        ensure!(m.vertices[i].removed == gone, "removed", "{}: vertex {i} removed={}", w(), m.vertices[i].removed);
        if gone {
            continue;
        }
        let p = match done {
            Some(p) if i == u => p,
            _ => &before.vertices[i].position,
        };
        ensure!(m.vertices[i].position == *p, "position", "{}: vertex {i} is in the wrong place", w());
    }
    Ok(())
}

fn edges(f: &Faces) -> Vec<(usize, usize)> {
    let e: BTreeSet<(usize, usize)> = f.values().flat_map(|t| dirs(*t)).flat_map(|(a, b)| [(a, b), (b, a)]).collect();
    e.into_iter().collect()
}

fn plain(forbid_border: bool) -> CollapseOpts<CgarF64> {
    CollapseOpts { area_eps2: CgarF64(0.0), forbid_border, forbid_normal_flip: false }
}

/// all collapses in one state; the kept vertex stays where it is, so no triangle ever degenerates
fn walk(m: &M3, fs: &Faces, trace: &mut Vec<(usize, usize)>, left: usize, c: &mut Ctx, name: &dyn Fn() -> String) -> Res {
    if left == 0 {
        return Ok(());
    }
    c.tick();
    let s = as_soup(fs);
    for (u, v) in edges(fs) {
        trace.push((u, v));
        let w = || format!("{}, collapses {trace:?}", name());
        let at = At(m.vertices[u].position.clone());
        let ok = topologically(&s, u, v);
        let border = s.dir(u, v).is_some() != s.dir(v, u).is_some();
        c.case();
        c.call(6);
        let opp: BTreeSet<usize> = [s.dir(u, v), s.dir(v, u)].into_iter().flatten().map(|x| x.1).collect();
        let link = s.neighbors(u).intersection(&s.neighbors(v)).copied().collect::<BTreeSet<_>>() == opp;
        ensure!(m.check_link_condition_triangle(u, v) == link, "link", "{}: link condition says {}", w(), !link);
        ensure!(m.collapse_link_condition_triangle(u, v) == link, "link", "{}: link condition says {}", w(), !link);
        let dup = s.neighbors(u).intersection(&s.neighbors(v)).any(|x| !opp.contains(x));
        ensure!(m.would_create_duplicate_edges(u, v) == dup, "duplicate", "{}: duplicate edges: {}", w(), !dup);
        let strict = m.collapse_edge_begin_vertices(u, v, &at, &plain(true)).is_ok();
        ensure!(strict == (ok && !border), "border-rule", "{}: with border edges forbidden the answer is {strict}", w());
        let h = m.edge_map[&(u, v)];
        let (p, q) = (m.collapse_edge_begin_he(h, &at, &plain(false)), m.collapse_edge_begin_vertices(u, v, &at, &plain(false)));
        ensure!(p.is_ok() == ok && q.is_ok() == ok, if ok { "refused" } else { "accepted" }, "{}: verdicts {:?} and {:?}, should be {ok}", w(), p.as_ref().err(), q.as_ref().err());
        if ok {
            let want = collapsed(fs, u, v);
            for plan in [p.unwrap(), q.unwrap()] {
                ensure!(plan.v_keep == u && plan.v_gone == v, "plan", "{}: the plan keeps {} and drops {}", w(), plan.v_keep, plan.v_gone);
                let mut k = m.clone();
                let r = k.collapse_edge_commit(plan);
                ensure!(r.is_ok(), "commit", "{}: the accepted plan failed: {r:?}", w());
                settle(&k, m, &want, u, v, Some(&at.0), &w)?;
                let ks = as_soup(&want);
                ensure!(ks.manifold_vertices(), "pinched", "{}: the surface is pinched: {want:?}", w());
                ensure!(ks.tris.is_empty() || s.faces_of(u) == s.faces_of(v) || ks.euler() == s.euler(), "euler", "{}: Euler characteristic {} became {}", w(), s.euler(), ks.euler());
            }
            let mut k = m.clone();
            let _ = k.collapse_edge_begin_vertices(u, v, &at, &plain(false)).map(|p| k.collapse_edge_commit(p));
            c.hit(if border { "border collapse" } else { "inner collapse" });
            walk(&k, &want, trace, left - 1, c, name)?;
        } else {
            c.hit("refused");
        }
        trace.pop();
    }
    // half-edges that are gone or never were
    for h in (0..=m.half_edges.len()).filter(|h| m.half_edges.get(*h).is_none_or(|e| e.removed)) {
        c.call(1);
        let at = At(Point { coords: std::array::from_fn(|_| CgarF64(0.5)) });
        let r = m.collapse_edge_begin_he(h, &at, &plain(false));
        ensure!(r.is_err(), "no-edge", "{}, collapses {trace:?}: half-edge {h} is gone, yet a plan was made", name());
    }
    // pairs that are no edge
    for u in 0..m.vertices.len() {
        for v in 0..m.vertices.len() {
            if u == v || !s.edge(u, v) {
                c.call(1);
                let r = m.collapse_edge_begin_vertices(u, v, &At(m.vertices[u].position.clone()), &plain(false));
                ensure!(r.is_err(), "no-edge", "{}, collapses {trace:?}: {u} and {v} share no edge, yet a plan was made", name());
            }
        }
    }
    Ok(())
}

fn soups(n: usize, max: usize, depth: usize) -> Family {
    let all: Vec<Vec<Tri>> = all_soups(n, max).into_iter().filter(|s| Soup { tris: s.iter().map(|t| (0, *t)).collect() }.manifold_vertices()).collect();
    family(format!("all-{n}-vertex-surfaces"), all.len() as u64, move |i, c| {
        let ts = &all[i as usize];
        let mut m = blank3(n);
        for t in ts {
            m.add_triangle(t[0], t[1], t[2]);
        }
        c.sample(|| format!("all histories of {depth} collapses on {ts:?}"));
        walk(&m, &faces_of(&m), &mut vec![], depth, c, &|| format!("{ts:?}"))
    })
}

fn sizes(max: usize) -> Family {
    let all = sized(max);
    family("sizes", all.len() as u64, move |i, c| {
        let (name, n, ts) = &all[i as usize];
        let mut m = blank3(*n);
        for t in ts {
            m.add_triangle(t[0], t[1], t[2]);
        }
        walk(&m, &faces_of(&m), &mut vec![], if *n <= 14 { 2 } else { 1 }, c, &|| name.clone())
    })
}

fn named(depth: usize) -> Family {
    let all: Vec<_> = surfaces().into_iter().filter(|s| s.0 != "pinched sheets").collect();
    family("surfaces", all.len() as u64, move |i, c| {
        let (name, n, ts) = &all[i as usize];
        let mut m = blank3(*n);
        for t in ts {
            m.add_triangle(t[0], t[1], t[2]);
        }
        walk(&m, &faces_of(&m), &mut vec![], depth, c, &|| name.to_string())?;
        let mut k = m.clone();
        k.remove_triangle(0);
        if !as_soup(&faces_of(&k)).manifold_vertices() {
            return Ok(());
        }
        walk(&k, &faces_of(&k), &mut vec![], depth, c, &|| format!("{name} without its first triangle"))
    })
}

/// a surface with lattice corners
#[derive(Clone)]
struct Shape {
    name: &'static str,
    v: Vec<I3>,
    t: Vec<Tri>,
    /// where the merged vertex may go
    p: Vec<I3>,
}
fn shapes() -> Vec<Shape> {
    let tilt = |x: i64, y: i64| [x, y, x - 2 * y];
    let ring: Vec<I3> = [(4, 0), (4, 4), (0, 4), (-4, 4), (-4, 0), (-4, -4), (0, -4), (4, -4)].iter().map(|(x, y)| tilt(*x, *y)).collect();
    let mut v = ring.clone();
    v.push(tilt(0, 0));
    let fan: Vec<Tri> = (0..8).map(|i| [8, i, (i + 1) % 8]).collect();
    // two inner vertices in the same square
    let mut v2 = ring;
    v2.push(tilt(-2, 0));
    v2.push(tilt(2, 0));
    let two = vec![[9, 0, 1], [9, 1, 2], [9, 2, 8], [8, 2, 3], [8, 3, 4], [8, 4, 5], [8, 5, 6], [9, 8, 6], [9, 6, 7], [9, 7, 0]];
    let grid: Vec<I3> = (0..49).map(|i| tilt((i % 7 - 3) * 2, (i / 7 - 3) * 2)).collect();
    let cube3: Vec<I3> = (0..125).map(|i| [(i % 5 - 2) * 2, (i / 5 % 5 - 2) * 2, (i / 25 - 2) * 2]).collect();
    let o = vec![[4, 0, 0], [-4, 0, 0], [0, 4, 0], [0, -4, 0], [0, 0, 4], [0, 0, -4]];
    let ot = vec![[0, 2, 4], [2, 1, 4], [1, 3, 4], [3, 0, 4], [2, 0, 5], [1, 2, 5], [3, 1, 5], [0, 3, 5]];
    vec![
        Shape { name: "flat fan", v, t: fan, p: grid.clone() },
        Shape { name: "two flat fans", v: v2, t: two, p: grid },
        Shape { name: "octahedron", v: o.clone(), t: ot.clone(), p: cube3.clone() },
        Shape { name: "open octahedron", v: o, t: ot[..7].to_vec(), p: cube3 },
    ]
}
/// wheels with many spokes in a tilted plane, one rim vertex pulled in towards the hub
fn wheel_shapes(half: i64) -> Vec<Shape> {
    let mut rim: Vec<(i64, i64)> = vec![];
    rim.extend((-half..half).map(|i| (i, -half)));
    rim.extend((-half..half).map(|i| (half, i)));
    rim.extend((-half..half).map(|i| (-i, half)));
    rim.extend((-half..half).map(|i| (-half, -i)));
    let n = rim.len();
    let tilt = |x: i64, y: i64| [x, y, x - 2 * y];
    let shape = |j: usize| {
        let mut v: Vec<I3> = rim.iter().enumerate().map(|(i, r)| if i == j { tilt(2 * r.0, 2 * r.1) } else { tilt(8 * r.0, 8 * r.1) }).collect();
        v.push([0; 3]);
        Shape { name: "wheel", v, t: (0..n).map(|i| [n, i, (i + 1) % n]).collect(), p: vec![] }
    };
    (0..n).map(shape).collect()
}
fn normal(v: &[I3], t: Tri) -> [i128; 3] {
    cross3(&sub(&v[t[1]], &v[t[0]]), &sub(&v[t[2]], &v[t[0]]))
}

per_scalar! {
    use super::*;
    type M = Mesh<T, 3>;
    fn build(fr: &Frame, s: &Shape) -> M {
        let mut m = M::new();
        for p in &s.v {
            m.add_vertex(pt::<T, 3>(fr, p));
        }
        for t in &s.t {
            m.add_triangle(t[0], t[1], t[2]);
        }
        m
    }
    /// smallest squared doubled area, whether a triangle turns over, whether one stands upright
    fn outcome(s: &Shape, u: usize, v: usize, p: &I3) -> (i128, bool, bool) {
        let mut nv = s.v.clone();
        nv[u] = *p;
        nv[v] = *p;
        let (mut area, mut turned, mut upright) = (i128::MAX, false, false);
        for t in s.t.iter().filter(|t| (t.contains(&u) || t.contains(&v)) && !(t.contains(&u) && t.contains(&v))) {
            let (a, b) = (normal(&s.v, *t), normal(&nv, *t));
            area = area.min(dot(&b, &b));
            turned |= dot(&a, &b) < 0;
            upright |= dot(&a, &b) == 0 && b != [0, 0, 0];
        }
        (area, turned, upright)
    }
    fn look(m: &M, before: &M, u: usize, v: usize, p: &Point<T, 3>, w: &dyn Fn() -> String) -> Res {
        // the point lookup follows the move
        let mut k = m.clone();
        let (i, found) = k.get_or_insert_vertex(p);
        let other = (0..m.vertices.len()).any(|j| j != u && j != v && m.vertices[j].position == *p);
        ensure!(found && (i == u || other), "lookup-new", "{}: looking up the merged vertex gives {i}, found {found}", w());
        for x in [u, v] {
            let q = &before.vertices[x].position;
            let there = (0..m.vertices.len()).any(|j| !m.vertices[j].removed && m.vertices[j].position == *q);
            let mut k = m.clone();
            let (i, found) = k.get_or_insert_vertex(q);
            ensure!(found == there && !k.vertices[i].removed && k.vertices[i].position == *q, "lookup-old", "{}: looking up the old place of {x} gives {i} (removed {}), found {found}", w(), k.vertices[i].removed);
        }
        Ok(())
    }
    pub fn placed(s: Shape) -> Family {
        let frs: Vec<Frame> = if T::EXACT { frames().into_iter().take(2).collect() } else { vec![frames().remove(0), frames().remove(3)] };
        let k = frs.len();
        let fs: Faces = s.t.iter().enumerate().map(|(i, t)| (i, canon(*t))).collect();
        let es = edges(&fs);
        family(format!("{}-{}", T::NAME, s.name.replace(' ', "-")), (k * es.len() * s.p.len()) as u64, move |i, c| {
            let mut d = Dec(i);
            let fr = &frs[d.take(k)];
            let (u, v) = es[d.take(es.len())];
            let p = &s.p[d.take(s.p.len())];
            let m = build(fr, &s);
            let topo = topologically(&as_soup(&fs), u, v);
            let (area, turned, upright) = outcome(&s, u, v, p);
            let at = At(pt::<T, 3>(fr, p));
            // squared areas on the lattice come out as (doubled area)^2 / 4, times the frame's scale^4
            let s4 = fr.s.clone() * &fr.s * &fr.s * &fr.s;
            for lim in [0i128, 4 * 4, 16 * 16, 32 * 32] {
                for flips in [false, true] {
                    c.case();
                    c.call(1);
                    let e2 = T::of(&(s4.clone() * lim / 4));
                    let o = CollapseOpts { area_eps2: e2, forbid_border: false, forbid_normal_flip: flips };
                    let r = m.collapse_edge_begin_vertices(u, v, &at, &o);
                    let w = || format!("{} {} {}: {v} into {u} at {p:?}, least squared doubled area {lim} (flips {})", T::NAME, fr.name, s.name, if flips { "forbidden" } else { "allowed" });
                    if flips && upright && !turned && topo && area > lim {
                        continue; // a triangle turned by exactly a right angle may go either way
                    }
                    if !T::EXACT && area == lim && lim != 0 {
                        continue;
                    }
                    let want = topo && area > lim && !(flips && turned);
                    ensure!(r.is_ok() == want, if want { "refused" } else if topo && area > lim { "turned-over" } else if topo { "too-thin" } else { "accepted" }, "{}: verdict {:?}, should be {want} (area {area}, turned {turned})", w(), r.as_ref().err());
                    if lim == 0 {
                        c.hit(if !topo { "bad link" } else if area == 0 { "no area" } else if turned { "turned over" } else { "good" });
                        if let Ok(plan) = r {
                            let mut k = m.clone();
                            let r = k.collapse_edge_commit(plan);
                            ensure!(r.is_ok(), "commit", "{}: the accepted plan failed: {r:?}", w());
                            settle(&k, &m, &collapsed(&fs, u, v), u, v, Some(&at.0), &w)?;
                            look(&k, &m, u, v, &at.0, &w)?;
                        }
                    }
                }
            }
            Ok(())
        })
    }
    /// wheels with many spokes, one rim vertex pulled in: of the many triangles left, few turn over
    pub fn wheels(half: i64, grid: i64) -> Family {
        let all = wheel_shapes(half);
        let n = all.len();
        let fr = frames().remove(if T::EXACT { 1 } else { 0 });
        let side = (2 * grid + 1) as usize;
        let tilt = |x: i64, y: i64| [x, y, x - 2 * y];
        family(format!("{}-wheels", T::NAME), (n * n) as u64, move |i, c| {
            let mut d = Dec(i);
            let s = &all[d.take(n)];
            let r = d.take(n);
            let fs: Faces = s.t.iter().enumerate().map(|(i, t)| (i, canon(*t))).collect();
            let m = build(&fr, s);
            for q in 0..side * side {
                let p = tilt(2 * ((q % side) as i64 - grid), 2 * ((q / side) as i64 - grid));
                let at = At(pt::<T, 3>(&fr, &p));
                for (u, v) in [(n, r), (r, n)] {
                    let (area, turned, upright) = outcome(s, u, v, &p);
                    for flips in [false, true] {
                        c.case();
                        c.call(1);
                        if flips && upright && !turned && area > 0 {
                            continue;
                        }
                        let o = CollapseOpts { area_eps2: T::of(&(fr.s.clone() * 0)), forbid_border: false, forbid_normal_flip: flips };
                        let res = m.collapse_edge_begin_vertices(u, v, &at, &o);
                        let w = || format!("{} wheel of {n} (hub {n}, corners {:?}): {v} into {u} at {p:?} (flips {})", T::NAME, s.v, if flips { "forbidden" } else { "allowed" });
                        let want = area > 0 && !(flips && turned);
                        ensure!(res.is_ok() == want, if want { "refused" } else if area > 0 { "turned-over" } else { "too-thin" }, "{}: verdict {:?}, should be {want} (area {area}, turned {turned})", w(), res.as_ref().err());
                        c.hit(if area == 0 { "no area" } else if turned { "turned over" } else { "good" });
                        if let Ok(plan) = res {
                            if flips {
                                let mut k = m.clone();
                                let res = k.collapse_edge_commit(plan);
                                ensure!(res.is_ok(), "commit", "{}: the accepted plan failed: {res:?}", w());
                                settle(&k, &m, &collapsed(&fs, u, v), u, v, Some(&at.0), &w)?;
                            }
                        }
                    }
                }
            }
            Ok(())
        })
    }
    /// the ready-made collapse: midpoint, default options
    pub fn midpoint() -> Family {
        let frs: Vec<Frame> = if T::EXACT { frames() } else { vec![frames().remove(0), frames().remove(3)] };
        let k = frs.len();
        let mut all = shapes();
        all.extend(wheel_shapes(2));
        all.extend(wheel_shapes(3));
        let ns = all.len();
        family(format!("{}-midpoint", T::NAME), (k * ns) as u64, move |i, c| {
            let mut d = Dec(i);
            let fr = &frs[d.take(k)];
            let s = &all[d.take(ns)];
            let fs: Faces = s.t.iter().enumerate().map(|(i, t)| (i, canon(*t))).collect();
            for (u, v) in edges(&fs) {
                c.case();
                c.call(2);
                let mid: I3 = std::array::from_fn(|i| (s.v[u][i] + s.v[v][i]) / 2);
                let (area, turned, upright) = outcome(s, u, v, &mid);
                let topo = topologically(&as_soup(&fs), u, v);
                let m = build(fr, s);
                let w = || format!("{} {} {}, corners {:?}: {v} into {u} at the midpoint", T::NAME, fr.name, s.name, s.v);
                ensure!(Placement::<T, 3>::place(&Midpoint, &m, u, v) == pt::<T, 3>(fr, &mid), "midpoint", "{}: not the midpoint", w());
                let mut k = m.clone();
                let ok = k.collapse_edge(u, v).is_ok();
                if upright && !turned {
                    continue;
                }
                let want = topo && area > 0 && !turned;
                ensure!(ok == want, if want { "refused" } else { "accepted" }, "{}: verdict {ok}, should be {want}", w());
                if ok {
                    let p = pt::<T, 3>(fr, &mid);
                    settle(&k, &m, &collapsed(&fs, u, v), u, v, Some(&p), &w)?;
                    look(&k, &m, u, v, &p, &w)?;
                } else {
                    settle(&k, &m, &fs, u, v, None, &w)?;
                }
            }
            Ok(())
        })
    }
}

fn main() {
    let th = thorough() as usize;
    let sh = shapes();
    let mut f = vec![soups(4, 20, 3), soups(5, 20, 3), soups(6, 8, 1 + th), named(2 + th), sizes(70)];
    for s in &sh {
        f.push(sf::placed(s.clone()));
        f.push(sr::placed(s.clone()));
        f.push(sl::placed(s.clone()));
    }
    f.push(sf::wheels(3 + th as i64, 3));
    f.push(sr::wheels(2, 2));
    f.push(sl::wheels(2, 2));
    f.push(sf::midpoint());
    f.push(sr::midpoint());
    f.push(sl::midpoint());
    run_check(
        "C14",
        Opts {
            rule: "every edge of every surface on 4 to 6 vertices and of eleven named surfaces, in all collapse histories to the depth bound; every edge of four lattice surfaces with the merged vertex at every lattice place and every combination of options; every spoke of wheels of 16 to 24 spokes with each rim vertex pulled in in turn".into(),
            assumptions: vec!["the surface has no pinched vertex before the collapse".into(), "a triangle turned by exactly a right angle may count as turned over or not".into()],
            ..Default::default()
        },
        f,
    )
}
