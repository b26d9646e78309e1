//! C18: measuring faces and locating points on them agrees with integer geometry.
use cgar::geometry::point::Point;
use cgar::mesh::basic_types::Mesh;
use cgar::mesh::topology::FindFaceResult;
use mc::engine::*;
use mc::ensure;
use mc::geo::*;
use mc::mesh::*;
use mc::per_scalar;
use rug::Rational;
use std::collections::BTreeMap;

fn normal(a: &I3, b: &I3, c: &I3) -> [i128; 3] {
    cross3(&sub(b, a), &sub(c, a))
}
/// barycentric coordinates of a point in the triangle's plane
fn bary(p: &I3, t: &[I3; 3]) -> Option<[Rational; 3]> {
    let n = normal(&t[0], &t[1], &t[2]);
    if dot(&n, &sub(p, &t[0])) != 0 {
        return None;
    }
    let nn = dot(&n, &n);
    Some(std::array::from_fn(|i| Rational::from((dot(&n, &normal(&t[(i + 1) % 3], &t[(i + 2) % 3], p)), nn))))
}

macro_rules! body {
    ($N:literal) => {
        use super::*;
        type M = Mesh<T, $N>;
        type P = Point<T, $N>;
        fn at(fr: &Frame, p: &I3) -> P {
            let mut a = [0i64; $N];
            a.copy_from_slice(&p[..$N]);
            pt::<T, $N>(fr, &a)
        }
        fn close(v: &T, want: &Rational) -> bool {
            if T::EXACT {
                same(v, want)
            } else {
                (fl(v) - want.to_f64()).abs() <= 1e-9 * (1.0 + want.to_f64().abs())
            }
        }
        fn frs() -> Vec<Frame> {
            if T::EXACT { let mut v = frames(); v.push(beyond()); v } else { vec![frames().remove(0), frames().remove(3)] }
        }
        fn corner(t: &[I3; 3], order: &[usize; 3], i: usize) -> I3 {
            t[order[i]]
        }
        /// all questions about one triangle and every point of the lattice
        fn one(fr: &Frame, t: &[I3; 3], pts: &[I3], c: &mut Ctx) -> Res {
            let mut m = M::new();
            for p in t {
                m.add_vertex(at(fr, p));
            }
            ensure!(m.add_triangle(0, 1, 2) == 0, "build", "cannot build {t:?}");
            let w = || format!("{} {}D {} {t:?}", T::NAME, $N, fr.name);
            let o = m.face_vertices(0);
            let s2 = fr.s.clone() * &fr.s;
            let n = normal(&t[0], &t[1], &t[2]);
            let nn = dot(&n, &n);
            c.call(3);
            // centre
            let want: [Rational; $N] = std::array::from_fn(|k| (0..3).map(|i| fr.q(k, t[i][k])).fold(Rational::from(0), |a, b| a + b) / 3);
            let g = m.face_centroid(0);
            let h = m.face_centroid_fast(0);
            for k in 0..$N {
                ensure!(close(&g[k], &want[k]), "centroid", "{}: centre coordinate {k} is {}", w(), fl(&g[k]));
                ensure!((fl(&h[k]) - want[k].to_f64()).abs() <= 1e-9 * (1.0 + want[k].to_f64().abs()), "centroid-fast", "{}: quick centre coordinate {k} is {}", w(), fl(&h[k]));
            }
            // size: the area in the plane, its square in space
            let area = if $N == 2 { Rational::from(n[2].abs()) / 2 * &s2 } else { Rational::from(nn) / 4 * &s2 * &s2 };
            ensure!(close(&m.face_area(0), &area), "area", "{}: area {} should be {area}", w(), fl(&m.face_area(0)));
            // box
            let b = m.face_aabb(0);
            for k in 0..$N {
                let mut q: Vec<Rational> = (0..3).map(|i| fr.q(k, t[i][k])).collect();
                q.sort();
                ensure!(close(&b.min()[k], &q[0]) && close(&b.max()[k], &q[2]), "box", "{}: box {}..{} on axis {k}", w(), fl(&b.min()[k]), fl(&b.max()[k]));
            }
            space(&m, fr, t, &n, pts, c, &w)?;
            let mut tree = m.build_face_tree();
            for p in pts {
                c.case();
                let q = at(fr, p);
                let lb = bary(p, t);
                let inside = lb.as_ref().map_or(false, |l| l.iter().all(|x| *x >= 0));
                let zeros = lb.as_ref().map_or(0, |l| l.iter().filter(|x| **x == 0).count());
                c.call(3);
                // barycentric coordinates
                let got = if lb.is_some() { m.barycentric_coords_on_face(0, &q) } else { None };
                ensure!(got.is_some() == inside, "bary", "{}: barycentric coordinates of {p:?} exist: {}", w(), got.is_some());
                if let Some((x, y, z)) = &got {
                    let l = lb.as_ref().unwrap();
                    for (i, v) in [x, y, z].into_iter().enumerate() {
                        ensure!(close(v, &l[o[i]]), "bary-value", "{}: barycentric coordinate {i} of {p:?} is {}", w(), fl(v));
                    }
                    // where on the face
                    match m.location_on_face(0, &q) {
                        FindFaceResult::Inside { f, bary } => {
                            ensure!(f == 0 && zeros == 0 && close(&bary.0, &l[o[0]]) && close(&bary.1, &l[o[1]]) && close(&bary.2, &l[o[2]]), "inside", "{}: {p:?} counts as inside", w());
                            c.hit("inside");
                        }
                        FindFaceResult::OnEdge { f, he, u } => {
                            let (a, b) = (m.source(he), m.target(he));
                            ensure!(f == 0 && zeros == 1 && l[3 - a - b] == 0 && close(&u, &l[b]), "on-edge", "{}: {p:?} counts as on {a}-{b} at {}", w(), fl(&u));
                            let (h2, u2) = m.edge_and_u_from_bary_zero(0, &T::of(&l[o[0]]), &T::of(&l[o[1]]), &T::of(&l[o[2]])).unwrap();
                            ensure!(h2 == he && close(&u2, &l[b]), "on-edge", "{}: {p:?} at half-edge {h2} {}", w(), fl(&u2));
                            let v = m.vertex_from_bary_zero(0, &T::of(&l[o[0]]), &T::of(&l[o[1]]), &T::of(&l[o[2]]));
                            ensure!(v.is_none(), "on-edge", "{}: {p:?} on {a}-{b} counts as vertex {v:?}", w());
                            c.hit("on an edge");
                        }
                        FindFaceResult::OnVertex { f, v } => {
                            ensure!(f == 0 && t[v] == *p, "on-vertex", "{}: {p:?} counts as vertex {v}", w());
                            ensure!(m.vertex_from_bary_zero(0, &T::of(&l[o[0]]), &T::of(&l[o[1]]), &T::of(&l[o[2]])) == Some(v), "on-vertex", "{}: {p:?}", w());
                            c.hit("on a vertex");
                        }
                    }
                    ensure!(zeros < 2 || t.contains(p), "harness", "two zero coordinates away from a corner");
                    match m.find_valid_face(0, &q) {
                        FindFaceResult::Inside { f, .. } => ensure!(f == 0 && zeros == 0, "find", "{}: {p:?} found inside", w()),
                        FindFaceResult::OnEdge { f, .. } => ensure!(f == 0 && zeros == 1, "find", "{}: {p:?} found on an edge", w()),
                        FindFaceResult::OnVertex { f, v } => ensure!(f == 0 && t[v] == *p, "find", "{}: {p:?} found at {v}", w()),
                    }
                } else {
                    c.hit("off");
                }
                // on the outline
                let edge = m.point_is_on_some_half_edge(0, &q);
                ensure!(edge.is_some() == (inside && zeros > 0), "outline", "{}: {p:?} on the outline: {}", w(), edge.is_some());
                if let Some((h, u)) = edge {
                    along(&m, fr, t, h, p, &u, &w)?;
                }
                for h in 0..m.half_edges.len() {
                    c.call(1);
                    let (a, b) = (m.source(h), m.target(h));
                    let u = m.point_on_half_edge(h, &q);
                    let on = on_segment_i(p, &t[a], &t[b]);
                    ensure!(u.is_some() == on, "on-half-edge", "{}: {p:?} on half-edge {a}-{b}: {}", w(), u.is_some());
                    if let Some(u) = u {
                        along(&m, fr, t, h, p, &u, &w)?;
                    }
                    // and within half a step of it
                    let (d2, line) = seg_dist2(p, &t[a], &t[b]);
                    let quarter = Rational::from((1, 4));
                    if T::EXACT || d2 != quarter {
                        c.call(1);
                        let near = m.point_on_half_edge_with_tolerance(h, &q, &T::of(&(Rational::from(fr.s.abs_ref()) / 2)));
                        ensure!(near.is_some() == (d2 <= quarter), "near-half-edge", "{}: {p:?} near half-edge {a}-{b}: {}", w(), near.is_some());
                        if let (Some(u), Some(l)) = (near, line) {
                            ensure!(close(&u, &l), "near-parameter", "{}: {p:?} at {} along {a}-{b}", w(), fl(&u));
                        }
                    }
                }
                let fs = containing(&m, &mut tree, &q);
                ensure!(fs == if inside && zeros == 0 { vec![0] } else { vec![] }, "containing", "{}: faces with {p:?} inside: {fs:?}", w());
            }
            Ok(())
        }
        /// p lies at parameter u along the half-edge
        fn along(m: &M, fr: &Frame, t: &[I3; 3], h: usize, p: &I3, u: &T, w: &dyn Fn() -> String) -> Res {
            let (a, b) = (m.source(h), m.target(h));
            let k = (0..3).find(|k| t[a][*k] != t[b][*k]).unwrap();
            let want = Rational::from((p[k] - t[a][k], t[b][k] - t[a][k]));
            let _ = fr;
            ensure!(close(u, &want), "parameter", "{}: {p:?} is at {want} along {a}-{b}, not {}", w(), fl(u));
            let key = (a.min(b), a.max(b));
            let x = m.canonicalize_u_for_edge(h, key, want.to_f64());
            let y = if a < b { want.to_f64() } else { 1.0 - want.to_f64() };
            ensure!((x - y).abs() < 1e-12, "canonical-parameter", "{}: {want} along {a}-{b} is {x} along the edge", w());
            Ok(())
        }
        pub fn single(tris: Vec<[I3; 3]>, pts: Vec<I3>, nf: usize) -> Family {
            let frs: Vec<Frame> = frs().into_iter().take(nf).collect();
            let k = frs.len();
            family(format!("{}-{}d-triangles", T::NAME, $N), (tris.len() * k) as u64, move |i, c| {
                let mut d = Dec(i);
                let fr = &frs[d.take(k)];
                one(fr, &tris[d.take(tris.len())], &pts, c)
            })
        }
        /// faces strictly containing a point, on whole surfaces
        pub fn surface(name: &'static str, v: Vec<I3>, ts: Vec<Tri>, lo: i64, hi: i64) -> Family {
            let frs = frs();
            let n = (hi - lo + 1) as usize;
            let total = if $N == 2 { n * n } else { n * n * n };
            family(format!("{}-{}d-{}", T::NAME, $N, name.replace(' ', "-")), (total * frs.len()) as u64, move |i, c| {
                let mut d = Dec(i);
                let fr = &frs[d.take(frs.len())];
                let mut p = [0i64; 3];
                for k in 0..$N {
                    p[k] = lo + d.take(n) as i64;
                }
                let mut m = M::new();
                for q in &v {
                    m.add_vertex(at(fr, q));
                }
                for t in &ts {
                    m.add_triangle(t[0], t[1], t[2]);
                }
                let mut tree = m.build_face_tree();
                c.case();
                c.call(1);
                let got = containing(&m, &mut tree, &at(fr, &p));
                let want: Vec<usize> = (0..ts.len()).filter(|f| bary(&p, &ts[*f].map(|x| v[x])).map_or(false, |l| l.iter().all(|x| *x > 0))).collect();
                c.hit(if want.is_empty() { "none" } else { "some" });
                ensure!(got == want, "containing", "{} {} {name}: faces with {p:?} inside: {got:?}, should be {want:?}", T::NAME, fr.name);
                Ok(())
            })
        }
        /// a box tree over the live faces finds exactly those whose boxes meet the query
        pub fn trees(name: &'static str, v: Vec<I3>, ts: Vec<Tri>, lo: i64, hi: i64) -> Family {
            let frs = frs();
            let n = ts.len().min(6);
            family(format!("{}-{}d-tree-{}", T::NAME, $N, name.replace(' ', "-")), ((1u64 << n) - 1) * frs.len() as u64, move |i, c| {
                let mut d = Dec(i);
                let gone = d.take((1 << n) - 1);
                let fr = &frs[d.take(frs.len())];
                let mut m = M::new();
                for q in &v {
                    m.add_vertex(at(fr, q));
                }
                for t in &ts {
                    m.add_triangle(t[0], t[1], t[2]);
                }
                for f in (0..n).filter(|f| gone >> f & 1 == 1) {
                    m.remove_triangle(f);
                }
                let live: Vec<usize> = (0..ts.len()).filter(|f| *f >= n || gone >> f & 1 == 0).collect();
                let span = |f: usize, k: usize| -> (i64, i64) {
                    let q = ts[f].map(|x| v[x][k]);
                    (*q.iter().min().unwrap(), *q.iter().max().unwrap())
                };
                let (tree, boxes) = m.build_face_tree_with_lookup();
                let plain = m.build_face_tree();
                c.call(2);
                let w = || format!("{} {}D {} {name} without {:?}", T::NAME, $N, fr.name, (0..n).filter(|f| gone >> f & 1 == 1).collect::<Vec<_>>());
                ensure!(boxes.len() == live.len(), "tree-boxes", "{}: {} boxes", w(), boxes.len());
                for (b, f) in boxes.iter().zip(&live) {
                    for k in 0..$N {
                        let (x, y) = span(*f, k);
                        let (mut x, mut y) = (fr.q(k, x), fr.q(k, y));
                        if x > y { std::mem::swap(&mut x, &mut y); }
                        ensure!(close(&b.min()[k], &x) && close(&b.max()[k], &y), "tree-box", "{}: box of face {f} is {}..{} on axis {k}", w(), fl(&b.min()[k]), fl(&b.max()[k]));
                    }
                }
                // every lattice box
                let s = (hi - lo + 1) as usize;
                let cells = if $N == 2 { s * s } else { s * s * s };
                let dec = |x: usize| -> I3 { [lo + (x % s) as i64, lo + (x / s % s) as i64, if $N == 2 { 0 } else { lo + (x / s / s) as i64 }] };
                for x in 0..cells {
                    for y in x..cells {
                        let (p, q) = (dec(x), dec(y));
                        if (0..3).any(|k| p[k] > q[k]) {
                            continue;
                        }
                        c.case();
                        c.call(2);
                        let b = cgar::geometry::aabb::Aabb::from_points(&at(fr, &p), &at(fr, &q));
                        let want: Vec<usize> = live.iter().copied().filter(|f| (0..$N).all(|k| { let (l, h) = span(*f, k); l <= q[k] && p[k] <= h })).collect();
                        for (t, how) in [(&tree, "with boxes"), (&plain, "plain")] {
                            let mut got = vec![];
                            t.query(&b, &mut got);
                            let mut got: Vec<usize> = got.into_iter().copied().collect();
                            got.sort();
                            ensure!(got == want, "tree-query", "{}: {how} tree at {p:?}..{q:?} gives {got:?}, should be {want:?}", w());
                        }
                        c.hit(if want.is_empty() { "box meets no face" } else { "box meets faces" });
                    }
                }
                Ok(())
            })
        }
        fn containing(m: &M, tree: &mut cgar::geometry::aabb_tree::AabbTree<T, $N, P, usize>, q: &P) -> Vec<usize> {
            inner(m, tree, q)
        }
        /// following a half-edge through the splits of its edge
        pub fn refined(depth: usize) -> Family {
            // a square cut along its diagonal; points on the diagonal, a border edge and inside
            let v: Vec<I3> = vec![[0, 0, 0], [8, 0, 0], [8, 8, 0], [0, 8, 0]];
            let ts: Vec<Tri> = vec![[0, 1, 2], [0, 2, 3]];
            let pts: Vec<I3> = (1..8).map(|k| [k, k, 0]).chain((1..8).map(|k| [k, 0, 0])).collect();
            let fr = frames().remove(match T::NAME { "lazy" => 5, "rational" => 1, _ => 0 });
            let np = pts.len();
            let total = (np as u64).pow(depth as u32);
            family(format!("{}-{}d-refined-edges", T::NAME, $N), total, move |i, c| {
                let mut d = Dec(i);
                let mut m = M::new();
                let mut pos = v.clone();
                for q in &v {
                    m.add_vertex(at(&fr, q));
                }
                for t in &ts {
                    m.add_triangle(t[0], t[1], t[2]);
                }
                let mut tree = m.build_face_tree();
                // every half-edge there ever was, with the ends it had
                let mut ever: BTreeMap<usize, (usize, usize)> = BTreeMap::new();
                let mut note = |m: &M| {
                    for h in 0..m.half_edges.len() {
                        if !m.half_edges[h].removed {
                            ever.entry(h).or_insert((m.half_edges[m.half_edges[h].twin].vertex, m.half_edges[h].vertex));
                        }
                    }
                    ever.clone()
                };
                let mut all = note(&m);
                let mut done = vec![];
                c.case();
                for _ in 0..depth {
                    let p = pts[d.take(np)];
                    if pos.contains(&p) {
                        continue;
                    }
                    let s = Soup::of(&m);
                    let mut e: Vec<(usize, usize)> = s.tris.iter().flat_map(|x| dirs(x.1)).filter(|(a, b)| on_segment_i(&p, &pos[*a], &pos[*b])).collect();
                    e.sort();
                    let Some((a, b)) = e.first() else { return fail("lost-edge", format!("{p:?} is on no edge after {done:?}")) };
                    let r = m.split_edge(&mut tree, m.edge_map[&(*a, *b)], &at(&fr, &p), true);
                    c.call(1);
                    ensure!(r.is_ok(), "split", "{} splits {done:?} then {p:?}: {:?}", T::NAME, r.err());
                    pos.push(p);
                    done.push(p);
                    all = note(&m);
                }
                for (h, (a, b)) in &all {
                    for p in pts.iter().filter(|p| on_segment_i(p, &pos[*a], &pos[*b])) {
                        c.call(1);
                        let g = m.find_valid_half_edge(*h, &at(&fr, p));
                        let w = || format!("{} {}D after splits at {done:?}: {p:?} on what was half-edge {h} ({a}-{b})", T::NAME, $N);
                        ensure!(g < m.half_edges.len() && !m.half_edges[g].removed, "dead", "{}: found dead half-edge {g}", w());
                        let (x, y) = (m.half_edges[m.half_edges[g].twin].vertex, m.half_edges[g].vertex);
                        ensure!(on_segment_i(p, &pos[x], &pos[y]), "elsewhere", "{}: found {x}-{y}, which does not hold the point", w());
                        ensure!(on_segment_i(&pos[x], &pos[*a], &pos[*b]) && on_segment_i(&pos[y], &pos[*a], &pos[*b]), "aside", "{}: found {x}-{y}, which is no part of it", w());
                        c.hit(if g == *h { "same" } else { "part" });
                    }
                }
                Ok(())
            })
        }
    };
}

per_scalar! {
    pub mod d2 {
        body!(2);
        fn space(_: &M, _: &Frame, _: &[I3; 3], _: &[i128; 3], _: &[I3], _: &mut Ctx, _: &dyn Fn() -> String) -> Res {
            Ok(())
        }
        fn inner(m: &M, _: &mut cgar::geometry::aabb_tree::AabbTree<T, 2, P, usize>, q: &P) -> Vec<usize> {
            use cgar::kernel::predicates::*;
            // in the plane there is no such query on the mesh; ask the predicate per face
            (0..m.faces.len()).filter(|f| {
                let v = m.face_vertices(*f).map(|i| m.vertices[i].position.clone());
                point_in_or_on_triangle(q, &v[0], &v[1], &v[2]) == TrianglePoint::In
            }).collect()
        }
    }
    pub mod d3 {
        body!(3);
        /// normals, planes and areas after moving a corner
        fn space(m: &M, fr: &Frame, t: &[I3; 3], n: &[i128; 3], pts: &[I3], c: &mut Ctx, w: &dyn Fn() -> String) -> Res {
            let s2 = fr.s.clone() * &fr.s;
            let g = m.face_normal(0);
            for k in 0..3 {
                ensure!(close(&g[k], &(Rational::from(n[k]) * &s2)), "normal", "{}: normal component {k} is {}", w(), fl(&g[k]));
            }
            let pl = m.plane_from_face(0);
            c.call(2);
            let side = |p: &I3| sgn_i(dot(n, &sub(p, &t[0]))) * fr.sign(1, 1);
            for p in pts {
                c.call(4);
                let q = at(fr, p);
                let e: T = (0..3).map(|k| &pl.normal[k] * &q[k]).fold(T::of(&Rational::from(0)), |a, b| &a + &b);
                let d = &e + &pl.d;
                let got = if T::EXACT { sgn(&d).unwrap_or(9) } else if fl(&d).abs() < 1e-9 { 0 } else { fl(&d).signum() as i32 };
                ensure!(got == side(p), "plane", "{}: {p:?} lies on side {got} of the face's plane, should be {}", w(), side(p));
                for v in 0..3 {
                    let mut u = *t;
                    u[v] = *p;
                    let q = normal(&u[0], &u[1], &u[2]);
                    let want = Rational::from(dot(&q, &q)) * &s2 * &s2;
                    let got = m.area2x4_after_move(0, v, &at(fr, p));
                    ensure!(close(&got, &want), "moved-area", "{}: with corner {v} at {p:?} the squared doubled area is {}", w(), fl(&got));
                }
            }
            Ok(())
        }
        fn inner(m: &M, tree: &mut cgar::geometry::aabb_tree::AabbTree<T, 3, P, usize>, q: &P) -> Vec<usize> {
            let mut v = m.faces_containing_point_aabb(tree, q);
            v.sort();
            v
        }
    }
}

fn main() {
    let th = thorough() as usize;
    let flat = |p: I2| -> I3 { [p[0], p[1], 0] };
    let g2: Vec<I3> = (0..16).map(|i| flat(lat::<2>(i, 4, 0))).collect();
    let q2: Vec<I3> = (0..36).map(|i| flat(lat::<2>(i, 6, -1))).collect();
    let g3: Vec<I3> = (0..27).map(|i| lat::<3>(i, 3, 0)).collect();
    let q3: Vec<I3> = (0..64).map(|i| lat::<3>(i, 4, -1)).collect();
    let ok = |t: &[I3; 3]| normal(&t[0], &t[1], &t[2]) != [0; 3];
    let all = |g: &[I3]| -> Vec<[I3; 3]> {
        let mut v = vec![];
        for a in g {
            for b in g {
                for c in g {
                    let t = [*a, *b, *c];
                    if ok(&t) {
                        v.push(t);
                    }
                }
            }
        }
        v
    };
    let t2 = all(&g2);
    let t3 = all(&g3);
    // up to the choice of the first corner
    let once = |v: &[[I3; 3]]| -> Vec<[I3; 3]> { v.iter().copied().filter(|t| t[0] < t[1] && t[0] < t[2]).collect() };
    let (o2, o3) = (once(&t2), once(&t3));
    // the exact types are slower: triangles of a 3 x 2 x 2 lattice
    let few3: Vec<[I3; 3]> = o3.iter().copied().filter(|t| th == 1 || t.iter().all(|p| p[1] < 2 && p[2] < 2)).collect();
    let octa: Vec<I3> = vec![[3, 0, 0], [-3, 0, 0], [0, 3, 0], [0, -3, 0], [0, 0, 3], [0, 0, -3]];
    let ot: Vec<Tri> = vec![[0, 2, 4], [2, 1, 4], [1, 3, 4], [3, 0, 4], [2, 0, 5], [1, 2, 5], [3, 1, 5], [0, 3, 5]];
    let cube: Vec<I3> = vec![[0, 0, 0], [3, 0, 0], [3, 3, 0], [0, 3, 0], [0, 0, 3], [3, 0, 3], [3, 3, 3], [0, 3, 3]];
    let ct: Vec<Tri> = surfaces().into_iter().find(|s| s.0 == "cube").unwrap().2;
    let mut f = vec![
        sf::d2::single(t2.clone(), q2.clone(), 2),
        sr::d2::single(o2.clone(), q2.clone(), 5),
        sl::d2::single(o2, q2.clone(), 5),
        sf::d3::single(t3, q3.clone(), 1),
        sr::d3::single(few3.clone(), q3.clone(), 2 + 3 * th),
        sl::d3::single(few3, q3, 2 + 3 * th),
    ];
    f.push(sf::d3::surface("octahedron", octa.clone(), ot.clone(), -4, 4));
    f.push(sr::d3::surface("octahedron", octa.clone(), ot.clone(), -4, 4));
    f.push(sl::d3::surface("octahedron", octa, ot, -4, 4));
    f.push(sf::d3::surface("cube", cube.clone(), ct.clone(), -1, 4));
    f.push(sr::d3::surface("cube", cube.clone(), ct.clone(), -1, 4));
    f.push(sl::d3::surface("cube", cube, ct, -1, 4));
    let tet: Vec<I3> = vec![[0, 0, 0], [2, 0, 0], [0, 2, 0], [0, 0, 2]];
    let tt: Vec<Tri> = surfaces().into_iter().find(|s| s.0 == "tetrahedron").unwrap().2;
    let fan: Vec<I3> = vec![[2, 0, 0], [1, 2, 0], [-1, 2, 0], [-2, 0, 0], [-1, -2, 0], [1, -2, 0], [0, 0, 0]];
    let ft: Vec<Tri> = surfaces().into_iter().find(|s| s.0 == "closed fan").unwrap().2;
    f.push(sf::d3::trees("tetrahedron", tet.clone(), tt.clone(), -1, 3));
    f.push(sr::d3::trees("tetrahedron", tet.clone(), tt.clone(), 0, 2));
    f.push(sl::d3::trees("tetrahedron", tet, tt, 0, 2));
    f.push(sf::d2::trees("fan", fan.clone(), ft.clone(), -3, 3));
    f.push(sr::d2::trees("fan", fan.clone(), ft.clone(), -2, 2));
    f.push(sl::d2::trees("fan", fan, ft, -2, 2));
    f.push(sf::d2::refined(4));
    f.push(sf::d3::refined(3 + th));
    f.push(sr::d2::refined(3));
    f.push(sl::d2::refined(3));
    f.push(sl::d3::refined(2 + th));
    run_check(
        "C18",
        Opts {
            rule: "every lattice triangle with every lattice point around it, every lattice point around two closed surfaces, and every half-edge there ever was after every sequence of edge splits to the depth bound".into(),
            assumptions: vec!["in doubles, measures may be off by a relative 1e-9".into()],
            ..Default::default()
        },
        f,
    )
}
