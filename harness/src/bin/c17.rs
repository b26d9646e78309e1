//! C17: looking vertices up by position, and the clean-up passes that drop dead faces, merge
//! coincident vertices and drop unused ones.
use cgar::geometry::point::Point;
use cgar::geometry::spatial_element::SpatialElement;
use cgar::mesh::basic_types::Mesh;
use mc::edits;
use mc::engine::*;
use mc::ensure;
use mc::geo::*;
use mc::mesh::*;
use mc::per_scalar;
use rug::Rational;
use std::collections::{BTreeMap, BTreeSet};

fn key<T: Sc, const N: usize>(p: &Point<T, N>) -> Vec<String> {
    (0..N).map(|i| format!("{:?}", p[i].val())).collect()
}

/// corner positions of every live triangle, by position class
fn corners<T: Sc, const N: usize>(m: &Mesh<T, N>) -> Vec<Vec<Vec<String>>> {
    let mut out: Vec<Vec<Vec<String>>> = live_faces(m)
        .into_iter()
        .map(|f| {
            let t: Vec<Vec<String>> = face_tri(m, f).iter().map(|v| key(&m.vertices[*v].position)).collect();
            let i = (0..3).min_by_key(|i| &t[*i]).unwrap();
            vec![t[i].clone(), t[(i + 1) % 3].clone(), t[(i + 2) % 3].clone()]
        })
        .collect();
    out.sort();
    out
}

/// the three passes on one mesh
fn clean(m: &edits::M3, c: &mut Ctx, w: &dyn Fn() -> String) -> Res {
    let before = soup(m);
    // dead faces
    let mut k = m.clone();
    k.remove_invalidated_faces();
    c.call(1);
    if let Err(e) = invariants(&k) {
        return fail("faces-structure", format!("{}: after dropping dead faces: {e}", w()));
    }
    ensure!(k.faces.iter().all(|f| !f.removed) && k.faces.len() == before.len(), "faces-count", "{}: {} face slots for {} triangles", w(), k.faces.len(), before.len());
    ensure!(soup(&k) == before, "faces-triangles", "{}: dropping dead faces turned {before:?} into {:?}", w(), soup(&k));
    let in_order: Vec<Tri> = live_faces(m).into_iter().map(|f| face_tri(m, f)).collect();
    let now: Vec<Tri> = live_faces(&k).into_iter().map(|f| face_tri(&k, f)).collect();
    ensure!(in_order == now, "faces-order", "{}: dropping dead faces reordered {in_order:?} to {now:?}", w());
    // unused vertices
    for pre in [m, &k] {
        let mut u = pre.clone();
        u.remove_unused_vertices();
        c.call(1);
        if let Err(e) = invariants(&u) {
            return fail("unused-structure", format!("{}: after dropping unused vertices: {e}", w()));
        }
        let used: BTreeSet<usize> = before.iter().flatten().copied().collect();
        let new: BTreeMap<usize, usize> = used.iter().enumerate().map(|(i, v)| (*v, i)).collect();
        let mut want: Vec<Tri> = before.iter().map(|t| canon(t.map(|v| new[&v]))).collect();
        want.sort();
        ensure!(soup(&u) == want, "unused-triangles", "{}: dropping unused vertices gave {:?}, should be {want:?}", w(), soup(&u));
        ensure!(u.vertices.len() == used.len() && u.vertices.iter().all(|v| !v.removed), "unused-count", "{}: {} vertices left of {} used ones", w(), u.vertices.len(), used.len());
        for (o, n) in &new {
            ensure!(u.vertices[*n].position == m.vertices[*o].position, "unused-position", "{}: vertex {o} became {n} and moved", w());
        }
        // the lookup by position follows
        for n in 0..u.vertices.len() {
            let p = u.vertices[n].position.clone();
            let mut q = u.clone();
            let (i, found) = q.get_or_insert_vertex(&p);
            c.call(1);
            ensure!(found && q.vertices[i].position == p && i < u.vertices.len(), "unused-lookup", "{}: vertex {n} is not found at its place afterwards", w());
        }
    }
    Ok(())
}

/// merging coincident vertices
fn merge<T: Sc>(m: &Mesh<T, 3>, c: &mut Ctx, w: &dyn Fn() -> String) -> Res
where
    Mesh<T, 3>: Merge,
{
    let live: Vec<usize> = (0..m.vertices.len()).filter(|v| !m.vertices[*v].removed).collect();
    let places: BTreeSet<Vec<String>> = live.iter().map(|v| key(&m.vertices[*v].position)).collect();
    let mut k = m.clone();
    let n = k.dups();
    c.call(1);
    ensure!(m.vertices.len() - k.vertices.len() == n, "merged-count", "{}: {n} vertices reported gone, {} are", w(), m.vertices.len() - k.vertices.len());
    let left: Vec<Vec<String>> = k.vertices.iter().filter(|v| !v.removed).map(|v| key(&v.position)).collect();
    ensure!(left.len() == places.len() && left.iter().cloned().collect::<BTreeSet<_>>() == places, "merged-vertices", "{}: {} live vertices left at {} places", w(), left.len(), places.len());
    ensure!(live_faces(&k) == live_faces(m), "merged-faces", "{}: merging changed the faces", w());
    ensure!(live_faces(&k).iter().all(|f| face_tri(&k, *f).iter().all(|v| *v < k.vertices.len() && !k.vertices[*v].removed)), "merged-dead", "{}: a triangle uses a dead vertex", w());
    ensure!(corners(&k) == corners(m), "merged-corners", "{}: merging moved a corner", w());
    for v in 0..k.vertices.len() {
        if !k.vertices[v].removed {
            let (u, found) = k.clone().look(v);
            c.call(1);
            ensure!(found && u < k.vertices.len() && !k.vertices[u].removed && key(&k.vertices[u].position) == key(&k.vertices[v].position), "merged-lookup", "{}: after merging, the place of vertex {v} is said to be vertex {u} (found {found})", w());
        }
    }
    // the whole clean-up as one
    let mut tris: Vec<Vec<Vec<String>>> = corners(m);
    tris.sort();
    let e: Vec<(Vec<String>, Vec<String>)> = tris.iter().flat_map(|t| (0..3).map(|i| (t[i].clone(), t[(i + 1) % 3].clone())).collect::<Vec<_>>()).collect();
    if e.iter().collect::<BTreeSet<_>>().len() < e.len() {
        c.hit("not a surface once merged");
        return Ok(());
    }
    k.unused();
    k.dead();
    c.call(2);
    if let Err(e) = invariants(&k) {
        return fail("merged-structure", format!("{}: after the whole clean-up: {e}", w()));
    }
    ensure!(corners(&k) == tris, "cleaned-triangles", "{}: the clean-up changed the triangles", w());
    let used: BTreeSet<Vec<String>> = tris.iter().flatten().cloned().collect();
    ensure!(k.vertices.len() == used.len(), "cleaned-vertices", "{}: {} vertices after the clean-up, {} places", w(), k.vertices.len(), used.len());
    c.hit(if n > 0 { "merged" } else { "nothing to merge" });
    Ok(())
}
trait Merge {
    fn dups(&mut self) -> usize;
    fn unused(&mut self);
    fn dead(&mut self);
    fn look(&mut self, v: usize) -> (usize, bool);
}

fn walk(m: &edits::M3, md: &edits::Model, trace: &mut Vec<edits::Op>, left: usize, c: &mut Ctx, name: &dyn Fn() -> String) -> Res {
    c.tick();
    c.case();
    let w = || format!("{}: {trace:?}", name());
    clean(m, c, &w)?;
    merge(m, c, &w)?;
    // a fresh vertex where an old one was given up
    for i in 0..m.vertices.len() {
        if m.vertices[i].removed {
            let mut k = m.clone();
            let p = m.vertices[i].position.clone();
            let (v, found) = k.get_or_insert_vertex(&p);
            c.call(1);
            ensure!(!k.vertices[v].removed && k.vertices[v].position == p, "revived", "{}: looking up the place of the removed vertex {i} gives {v}", w());
            c.hit("place of a removed vertex");
            if !found {
                merge(&k, c, &|| format!("{}, then a vertex at the place of {i}", w()))?;
            }
        }
    }
    if left == 0 {
        return Ok(());
    }
    for op in md.ops() {
        trace.push(op);
        let (mut k, mut kd) = (m.clone(), md.clone());
        c.call(1);
        if edits::step(&mut k, &mut kd, op, &|| format!("{}: {trace:?}", name()))? {
            walk(&k, &kd, trace, left - 1, c, name)?;
        }
        trace.pop();
    }
    Ok(())
}

fn edited(depth: usize) -> Vec<Family> {
    surfaces()
        .into_iter()
        .chain([("triangle", 3, vec![[0, 1, 2]]), ("square with a loose vertex", 5, vec![[0, 1, 2], [0, 2, 3]])])
        .map(|(name, n, ts)| {
            let (m, md) = edits::start(n, &ts);
            let ops = md.ops();
            let depth = if ts.len() <= 2 { depth + 1 } else { depth };
            family(name.replace(' ', "-"), ops.len() as u64, move |i, c| {
                let op = ops[i as usize];
                c.sample(|| format!("{name}: clean-up after every history of {depth} edits that begins with {op:?}"));
                let (mut k, mut kd) = (m.clone(), md.clone());
                c.call(1);
                if edits::step(&mut k, &mut kd, op, &|| format!("{name}: {op:?}"))? {
                    walk(&k, &kd, &mut vec![op], depth - 1, c, &|| name.to_string())?;
                }
                Ok(())
            })
        })
        .collect()
}

/// clean-up after every single edit of surfaces of every size
fn sizes(max: usize) -> Family {
    let all = sized(max);
    family("sizes", all.len() as u64, move |i, c| {
        let (name, n, ts) = &all[i as usize];
        let (m, md) = edits::start(*n, ts);
        walk(&m, &md, &mut vec![], 1, c, &|| name.clone())
    })
}

/// all ways to put n vertices at places so that some coincide
fn partitions(n: usize) -> Vec<Vec<usize>> {
    let mut out = vec![vec![]];
    for _ in 0..n {
        out = out
            .into_iter()
            .flat_map(|p: Vec<usize>| {
                let m = p.iter().max().map_or(0, |x| x + 1);
                (0..=m).map(move |k| p.iter().copied().chain([k]).collect())
            })
            .collect();
    }
    out
}

per_scalar! {
    use super::*;
    type M = Mesh<T, 3>;
    impl Merge for M {
        fn dups(&mut self) -> usize {
            self.remove_duplicate_vertices()
        }
        fn unused(&mut self) {
            self.remove_unused_vertices()
        }
        fn dead(&mut self) {
            self.remove_invalidated_faces()
        }
        fn look(&mut self, v: usize) -> (usize, bool) {
            let p = self.vertices[v].position.clone();
            self.get_or_insert_vertex(&p)
        }
    }
    /// two triangles along an edge whose ends were computed in different ways, at multiples of a fraction of the merging distance
    pub fn recomputed(n: usize) -> Family {
        let den = [7i64, 3, 10];
        family(format!("{}-recomputed-{n}", T::NAME), (den.len() * n * 4 * 4 * 3) as u64, move |i, c| {
            let mut d = Dec(i);
            let z = T::of(&Rational::from((1, den[d.take(3)])));
            let x = Rational::from((9 * (d.take(n) as i64 + 1), 10_000_000));
            let (way, back, axis) = (d.take(4), d.take(4), d.take(3));
            let new = |q: &Rational, w: usize| -> T {
                let q = T::of(q);
                match w {
                    0 => q,
                    1 => &(&q + &z) - &z,
                    2 => &(&q / &z) * &z,
                    _ => &(&q * &z) / &z,
                }
            };
            let (zero, one) = (Rational::from(0), Rational::from(1));
            let at = |u: &Rational, v: &Rational, w: usize| Point::<T, 3>::from_vals(std::array::from_fn(|j| if j == axis { new(u, w) } else if j == (axis + 1) % 3 { new(v, w) } else { T::of(&zero) }));
            if !T::EXACT {
                return Ok(());
            }
            c.case();
            let mut m = M::new();
            for p in [at(&x, &x, way), at(&one, &one, way), at(&one, &zero, way), at(&x, &x, back), at(&one, &one, back), at(&zero, &one, back)] {
                m.add_vertex(p);
            }
            m.add_triangle(0, 1, 2);
            m.add_triangle(4, 3, 5);
            merge(&m, c, &|| format!("{}: the edge from {x},{x} to 1,1 computed in ways {way} and {back}", T::NAME))
        })
    }
    /// every soup on n vertices, with the vertices put together in every way
    pub fn welded(n: usize, max: usize) -> Family {
        let all = all_soups(n, max);
        let parts = partitions(n);
        let frs: Vec<Frame> = frames().into_iter().enumerate().filter(|(i, f)| *i < 2 || T::EXACT && f.exact_only).map(|x| x.1).chain(far_frame()).collect();
        family(format!("{}-coincident-{n}", T::NAME), (all.len() * frs.len()) as u64, move |i, c| {
            let mut d = Dec(i);
            let fr = &frs[d.take(frs.len())];
            let ts = &all[d.take(all.len())];
            for p in &parts {
                if ts.iter().any(|t| p[t[0]] == p[t[1]] || p[t[1]] == p[t[2]] || p[t[0]] == p[t[2]]) {
                    continue;
                }
                c.case();
                let mut m = M::new();
                for v in 0..n {
                    let x = p[v] as i64 - 1;
                    m.add_vertex(pt::<T, 3>(fr, &[x, x * x, x * x * x]));
                }
                for t in ts {
                    m.add_triangle(t[0], t[1], t[2]);
                }
                merge(&m, c, &|| format!("{} {}: {ts:?} with places {p:?}", T::NAME, fr.name))?;
            }
            Ok(())
        })
    }
    /// surfaces of every size, each triangle with corners of its own, listed in two orders
    pub fn exploded(max: usize) -> Family {
        let all = sized(max);
        let fr = frames().remove(if T::EXACT { 1 } else { 0 });
        family(format!("{}-exploded-{max}", T::NAME), (all.len() * 2) as u64, move |i, c| {
            let mut d = Dec(i);
            let back = d.take(2) == 1;
            let (name, _, ts) = &all[d.take(all.len())];
            let mut m = M::new();
            let list: Vec<Tri> = if back { ts.iter().rev().copied().collect() } else { ts.clone() };
            for t in &list {
                for k in t {
                    let x = *k as i64 - 3;
                    m.add_vertex(pt::<T, 3>(&fr, &[x, x * x, x * x * x]));
                }
            }
            for k in 0..list.len() {
                m.add_triangle(3 * k, 3 * k + 1, 3 * k + 2);
            }
            c.case();
            merge(&m, c, &|| format!("{} {name}, every triangle with corners of its own, backwards {back}", T::NAME))
        })
    }
    /// all sequences of lookups of points on a fine grid, some nearer than the merging distance
    pub fn lookups(len: usize) -> Family {
        // coordinates in units of a tenth of the merging distance around a few anchors
        let anchors: Vec<Rational> = if T::EXACT {
            vec![Rational::from(0), Rational::from((1, 3)), Rational::from((-9, 10_000_000)), Rational::from(-1000), Rational::from(1_000_000)]
        } else {
            vec![Rational::from(0), Rational::from((-9, 10_000_000)), Rational::from(-1000)]
        };
        let steps = [0i64, 1, 5, 21, -1, -21];
        let np = anchors.len() * steps.len();
        let coord = move |k: usize| -> Rational { anchors[k / 6].clone() + Rational::from((steps[k % 6], 10_000_000)) };
        let total = (np as u64).pow(len as u32) * 3;
        family(format!("{}-lookups-{len}", T::NAME), total, move |i, c| {
            let mut d = Dec(i);
            let axis = d.take(3);
            let mut m = M::new();
            let mut held: Vec<Rational> = vec![];
            c.case();
            for s in 0..len {
                let x = coord(d.take(np));
                let v: [T; 3] = std::array::from_fn(|j| if j == axis { T::of(&x) } else { T::of(&Rational::from(0)) });
                let p = Point::<T, 3>::from_vals(v);
                let (k, found) = m.get_or_insert_vertex(&p);
                c.call(1);
                let w = || format!("{} axis {axis}: places {held:?}, then {x}", T::NAME);
                let exact: Vec<usize> = (0..held.len()).filter(|j| held[*j] == x).collect();
                if !exact.is_empty() {
                    ensure!(found && near(&held[k], &x), "equal", "{}: an equal point was not found ({k}, {found})", w());
                    c.hit("found again");
                } else if found {
                    ensure!(k < held.len() && near(&held[k], &x), "far", "{}: merged with vertex {k}, which is too far away", w());
                    c.hit("merged with a near one");
                } else {
                    c.hit(if held.iter().any(|h| near(h, &x)) { "kept beside a near one" } else { "new" });
                }
                if !found {
                    ensure!(k == held.len(), "new-handle", "{}: the new vertex is number {k}", w());
                    held.push(x);
                }
                ensure!(m.vertices.len() == held.len(), "count", "step {s}: {} vertices, should be {}", m.vertices.len(), held.len());
            }
            Ok(())
        })
    }
    /// a point computed in two ways, so that its double image falls into either of two cells in
    /// any of the three coordinates, beside up to two other vertices
    pub fn either_side(n: usize) -> Family {
        let den = [7i64, 3];
        let ways = [(0usize, 1usize), (0, 2), (0, 3), (1, 2), (1, 3), (2, 3)];
        family(format!("{}-either-side-{n}", T::NAME), (den.len() * n * ways.len() * 3 * 27) as u64, move |i, c| {
            let mut d = Dec(i);
            let which: [usize; 3] = std::array::from_fn(|_| d.take(3));
            let beside = d.take(3);
            let (a, b) = ways[d.take(ways.len())];
            let z = T::of(&Rational::from((1, den[d.take(den.len())])));
            let x = Rational::from((9 * (d.take(n) as i64 + 1), 10_000_000));
            let new = |q: &Rational, w: usize| -> T {
                let q = T::of(q);
                match w {
                    0 => q,
                    1 => &(&q + &z) - &z,
                    2 => &(&q / &z) * &z,
                    _ => &(&q * &z) / &z,
                }
            };
            let at = |x: &Rational, second: bool| Point::<T, 3>::from_vals(std::array::from_fn(|j| new(x, match which[j] { 0 => a, 1 => if second { b } else { a }, _ => if second { a } else { b } })));
            let w = || format!("{}: {x} computed in ways {a} and {b}, {which:?}, beside {beside} others", T::NAME);
            c.case();
            let mut m = M::new();
            // others in both cells, not equal
            for k in 0..beside {
                let e = Rational::from((1 + k as i64, 30_000_000));
                m.add_vertex(at(&Rational::from(&x + &e), false));
                m.add_vertex(at(&Rational::from(&x - &e), false));
            }
            let v = m.add_vertex(at(&x, false));
            let mut k = m.clone();
            let (u, found) = k.get_or_insert_vertex(&at(&x, true));
            c.call(1);
            ensure!(found && near(&k.vertices[u].position[0].val().unwrap(), &x), "either-side", "{}: the point is not found again ({u}, {found})", w());
            m.add_vertex(at(&x, true));
            let before = m.vertices.len();
            let gone = m.remove_duplicate_vertices();
            c.call(1);
            ensure!(gone == 1 && m.vertices.len() == before - 1 && v < m.vertices.len(), "either-side-merged", "{}: {gone} of {before} vertices merged", w());
            c.hit("the same point in either cell");
            Ok(())
        })
    }
    /// two lookups of places of any size
    pub fn far(from: i32, to: i32) -> Family {
        let n = (to - from) as usize * 3 + 1;
        let at = move |k: usize| -> Rational {
            let e = (from + (k / 3) as i32) as u32;
            let x = Rational::from(1) << e;
            match k % 3 { 0 => x, 1 => -x, _ => x * 5 / 4 }
        };
        family(format!("{}-far-lookups-{from}-{to}", T::NAME), (n * 3) as u64, move |i, c| {
            let mut d = Dec(i);
            let (axis, k) = (d.take(3), d.take(n));
            let x = at(k);
            let place = |x: &Rational| Point::<T, 3>::from_vals(std::array::from_fn(|j| if j == axis { T::of(x) } else { T::of(&Rational::from(0)) }));
            let mut one = M::new();
            one.add_vertex(place(&x));
            for l in 0..n {
                let y = at(l);
                let mut m = one.clone();
                c.case();
                for step in 0..2 {
                    c.call(1);
                    let (v, found) = m.get_or_insert_vertex(&place(&y));
                    let want = if x == y { (0, true) } else { (1, step == 1) };
                    ensure!((v, found) == want, "far-lookup", "{} axis {axis}: a vertex at {x}, lookup {step} of {y} gives {v} (found {found})", T::NAME);
                }
            }
            c.hit("places of any size");
            Ok(())
        })
    }
    fn near(a: &Rational, b: &Rational) -> bool {
        let d: Rational = (a.clone() - b).abs();
        d <= Rational::from((1001, 1_000_000_000))
    }
    /// the same point written as different sums must be one vertex
    pub fn rewritten() -> Family {
        let n = 13usize;
        family(format!("{}-same-point-computed-differently", T::NAME), (n * n * n) as u64, move |i, c| {
            let mut d = Dec(i);
            let mut m = M::new();
            c.case();
            let parts: [Rational; 3] = std::array::from_fn(|_| Rational::from((d.take(n) as i64 + 1, 7)));
            let a = T::of(&parts[0]);
            let b = T::of(&parts[1]);
            let z = T::of(&parts[2]);
            // a + b - a - b, a/z*z - a, (a-b) + (b-a) are all zero
            let zero = [
                &(&(&a + &b) - &a) - &b,
                &(&(&a / &z) * &z) - &a,
                &(&a - &b) + &(&b - &a),
                &(&(&a * &b) / &b) - &a,
                &a - &a,
            ];
            if !T::EXACT {
                return Ok(());
            }
            for (k, x) in zero.iter().enumerate() {
                for (l, y) in zero.iter().enumerate() {
                    let p = Point::<T, 3>::from_vals([x.clone(), y.clone(), x.clone()]);
                    let (v, found) = m.get_or_insert_vertex(&p);
                    c.call(1);
                    ensure!(v == 0 && found == (k + l > 0), "rewritten", "{}: with {parts:?}, the origin computed in way {k},{l} is vertex {v} (found {found})", T::NAME);
                }
            }
            Ok(())
        })
    }
}

/// doubles so large that their neighbours are far apart
fn far_frame() -> Option<Frame> {
    Some(Frame { name: "far", s: Rational::from(1) << 80, off: std::array::from_fn(|_| Rational::new()), dyadic: true, exact_only: false })
}

fn main() {
    let th = thorough() as usize;
    let mut f = edited(2 + th);
    f.push(sf::welded(4, 20));
    f.push(sr::welded(4, 20));
    f.push(sl::welded(4, 20));
    f.push(sf::welded(5, 20));
    f.push(sf::welded(6, 3 + th));
    f.push(sl::welded(6, 2));
    f.push(sf::exploded(90 + 60 * th));
    f.push(sr::exploded(20));
    f.push(sl::exploded(20));
    f.push(sizes(24 + 30 * th));
    f.push(sr::recomputed(40));
    f.push(sl::recomputed(200));
    f.push(sr::either_side(12));
    f.push(sl::either_side(120 + 200 * th));
    f.push(sf::far(0, 1023));
    f.push(sr::far(30, 150));
    f.push(sl::far(30, 150));
    f.push(sf::lookups(3));
    f.push(sr::lookups(2));
    f.push(sl::lookups(2));
    if th == 1 {
        f.push(sr::lookups(3));
        f.push(sl::lookups(3));
    }
    f.push(sr::rewritten());
    f.push(sl::rewritten());
    run_check(
        "C17",
        Opts {
            rule: "every clean-up pass after every history of edits on fourteen surfaces to the depth bound; every mesh on 4 to 6 vertices with its vertices put together in every way; every sequence of lookups of points around cell boundaries".into(),
            assumptions: vec!["points nearer than the merging distance but not equal may or may not be merged".into()],
            ..Default::default()
        },
        f,
    )
}
