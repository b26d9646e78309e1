//! C26: where two meshes meet: every pair of faces, every common piece, every end located.
use cgar::mesh::basic_types::*;
use cgar::mesh::intersection_segment::*;
use mc::engine::*;
use mc::ensure;
use mc::geo::*;
use mc::mesh::*;
use mc::per_scalar;
use mc::solids::*;
use mc::tritri::*;
use rug::Rational;
use std::collections::{BTreeMap, BTreeSet};

/// a mesh on the lattice: points, triangles, faces taken away again
#[derive(Clone, Debug)]
pub struct Lat {
    pts: Vec<I3>,
    tris: Vec<Tri>,
    gone: Vec<usize>,
}
impl Lat {
    fn new(pts: Vec<I3>, tris: Vec<Tri>) -> Lat {
        Lat { pts, tris, gone: vec![] }
    }
    fn at(&self, o: &I3) -> Lat {
        Lat { pts: self.pts.iter().map(|p| std::array::from_fn(|i| p[i] + o[i])).collect(), ..self.clone() }
    }
    fn without(&self, gone: Vec<usize>) -> Lat {
        Lat { gone, ..self.clone() }
    }
}

per_scalar! {
    fn build2(f: &Frame, l: &Lat) -> Result<Mesh<T, 2>, Fail> {
        let mut m = Mesh::<T, 2>::new();
        for p in &l.pts {
            let q: [i64; 2] = std::array::from_fn(|i| p[i]);
            m.add_vertex(pt::<T, 2>(f, &q));
        }
        for t in &l.tris {
            let id = m.add_triangle(t[0], t[1], t[2]);
            if id == usize::MAX { return fail("build", format!("{l:?}: triangle {t:?} refused")); }
        }
        for g in &l.gone {
            m.remove_triangle(*g);
        }
        Ok(m)
    }
    fn build3(f: &Frame, l: &Lat) -> Result<Mesh<T, 3>, Fail> {
        let mut m = Mesh::<T, 3>::new();
        for p in &l.pts {
            let q: [i64; 3] = std::array::from_fn(|i| p[i]);
            m.add_vertex(pt::<T, 3>(f, &q));
        }
        for t in &l.tris {
            let id = m.add_triangle(t[0], t[1], t[2]);
            if id == usize::MAX { return fail("build", format!("{l:?}: triangle {t:?} refused")); }
        }
        for g in &l.gone {
            m.remove_triangle(*g);
        }
        Ok(m)
    }
    fn img(f: &Frame, x: &H) -> [Rational; 3] {
        std::array::from_fn(|i| f.qr(i, &Rational::from((x.n[i], x.d))))
    }

    /// where an end lies according to its description, as weights of the corners of the face
    fn located(m: &Mesh<T, 3>, face: usize, e: &IntersectionEndPoint<T, 3>) -> Result<([T; 3], usize), String> {
        let v = face_tri(m, face);
        let (z, o) = (T::of(&Rational::new()), T::of(&Rational::from(1)));
        let mut g: [T; 3] = std::array::from_fn(|_| z.clone());
        let at = |x: usize| v.iter().position(|y| *y == x).ok_or(format!("vertex {x} is no corner of face {face}"));
        match (e.vertex_hint, e.half_edge_hint, &e.half_edge_u_hint, e.faces_hint, &e.barycentric_hint) {
            (Some([a, usize::MAX]), None, None, None, None) => {
                g[at(a)?] = o;
                Ok((g, 2))
            }
            (Some([a, b]), Some(he), Some(u), Some(fs), None) => {
                let h = &m.half_edges[he];
                if h.removed || h.vertex != b || m.half_edges[h.twin].vertex != a {
                    return Err(format!("half-edge {he} does not run from {a} to {b}"));
                }
                let mut want: Vec<usize> = [h.face, m.half_edges[h.twin].face].into_iter().map(|x| x.unwrap_or(usize::MAX)).collect();
                let mut got = fs.to_vec();
                want.sort();
                got.sort();
                if got != want {
                    return Err(format!("faces {got:?} for an edge between {want:?}"));
                }
                if at(a)? == at(b)? {
                    return Err("an edge from a corner to itself".into());
                }
                g[at(b)?] = u.clone();
                g[at(a)?] = &o - u;
                Ok((g, 1))
            }
            (None, None, None, Some([x, usize::MAX]), Some(b)) if x == face => {
                // weights follow the corners in the order the mesh lists them
                let own = m.face_vertices(face);
                for (k, w) in [&b.0, &b.1, &b.2].into_iter().enumerate() {
                    g[at(own[k])?] = w.clone();
                }
                Ok((g, 0))
            }
            _ => Err("the end is described in no or more than one way".into()),
        }
    }

    fn meet(f: &Frame, la: &Lat, lb: &Lat, c: &mut Ctx) -> Res {
        if !T::EXACT && f.exact_only { return Ok(()); }
        let (ma, mb) = (build3(f, la)?, build3(f, lb)?);
        c.call(1);
        let w = || format!("{la:?} and {lb:?} frame {}", f.name);
        let (ra, rb) = ma.get_mesh_intersections_3(&mb);
        ensure!(ra.len() == rb.len(), "lists", "{}: {} pieces on the first mesh, {} on the second", w(), ra.len(), rb.len());
        let mut by: BTreeMap<(usize, usize), Vec<usize>> = BTreeMap::new();
        for i in 0..ra.len() {
            by.entry((ra[i].initial_face_reference, rb[i].initial_face_reference)).or_default().push(i);
        }
        let (fa, fb) = (live_faces(&ma), live_faces(&mb));
        for k in by.keys() {
            ensure!(fa.contains(&k.0) && fb.contains(&k.1), "dead-face", "{}: a piece on faces {k:?}", w());
        }
        for &x in &fa {
            let p = face_tri(&ma, x).map(|v| la.pts[v]);
            for &y in &fb {
                let q = face_tri(&mb, y).map(|v| lb.pts[v]);
                c.case();
                let want = truth(&p, &q);
                let flat = p.iter().all(|v| side(&hi(v), &plane(&q)) == 0);
                let got = by.get(&(x, y)).cloned().unwrap_or_default();
                let eq = |s: &cgar::geometry::point::Point<T, 3>, h: &H| same_pt(s, &img(f, h));
                let is = |i: usize, h: &H, g: &H| {
                    let s = &ra[i].segment;
                    (eq(&s.a, h) && eq(&s.b, g)) || (eq(&s.a, g) && eq(&s.b, h))
                };
                let (ok, corners): (bool, Vec<H>) = match &want {
                    Want::Empty => (got.is_empty(), vec![]),
                    Want::Point(h) => (got.len() == 1 && is(got[0], h, h) || flat && got.is_empty(), vec![*h]),
                    Want::Seg(h, g) => (got.len() == 1 && is(got[0], h, g), vec![*h, *g]),
                    Want::Poly(v) => (got.len() == v.len() && (0..v.len()).all(|k| got.iter().filter(|i| is(**i, &v[k], &v[(k + 1) % v.len()])).count() == 1), v.clone()),
                };
                ensure!(ok, if flat { "piece-coplanar" } else { "piece" }, "{}: faces {x} and {y}: {} pieces, truth {want:?}", w(), got.len());
                for i in got {
                    // marked when the faces, or an edge of one of them and the other face, share a plane
                    let mark = ra[i].coplanar;
                    let in_plane = |s: &[I3; 3], t: &[I3; 3]| s.iter().filter(|v| side(&hi(v), &plane(t)) == 0).count() >= 2;
                    ensure!(mark == rb[i].coplanar && (mark || !flat) && (!mark || in_plane(&p, &q) || in_plane(&q, &p)), "flag", "{}: faces {x} and {y}: marked coplanar {mark} / {}", w(), rb[i].coplanar);
                    for (m, r, t, face) in [(&ma, &ra[i], &p, x), (&mb, &rb[i], &q, y)] {
                        for (e, at) in [(&r.a, &r.segment.a), (&r.b, &r.segment.b)] {
                            let Some(h) = corners.iter().find(|h| eq(at, h)) else {
                                return fail("end", format!("{}: faces {x} and {y}: an end at {}", w(), show_pt(at)));
                            };
                            let (g, zeros) = match located(m, face, e) {
                                Ok(v) => v,
                                Err(s) => return fail("hint", format!("{}: faces {x} and {y}: {s}", w())),
                            };
                            let (b, s) = bary(h, t);
                            ensure!((0..3).all(|k| same(&g[k], &Rational::from((b[k], s)))), "located", "{}: faces {x} and {y}: end at {h:?} described as {e:?}", w());
                            if T::EXACT {
                                ensure!(b.iter().filter(|v| **v == 0).count() == zeros, "class", "{}: faces {x} and {y}: end at {h:?} described as {e:?}", w());
                            }
                            c.hit(["end in a face", "end on an edge", "end at a vertex"][zeros]);
                        }
                    }
                }
                c.hit(match (&want, flat) {
                    (Want::Empty, _) => "faces apart",
                    (Want::Point(_), false) => "faces touch in a point",
                    (Want::Point(_), true) => "coplanar faces touch in a point",
                    (Want::Seg(..), false) => "faces share a segment",
                    (Want::Seg(..), true) => "coplanar faces share a segment",
                    (Want::Poly(_), _) => "coplanar faces share area",
                });
            }
        }
        Ok(())
    }

    /// the same in the plane: edges of one mesh against edges of the other
    fn meet2(f: &Frame, la: &Lat, lb: &Lat, c: &mut Ctx) -> Res {
        if !T::EXACT && f.exact_only { return Ok(()); }
        let (ma, mb) = (build2(f, la)?, build2(f, lb)?);
        c.call(1);
        let w = || format!("{la:?} and {lb:?} frame {}", f.name);
        let (ra, rb) = ma.get_mesh_intersections_2(&mb);
        let edges = |m: &Mesh<T, 2>| -> BTreeSet<(usize, usize)> {
            soup(m).into_iter().flat_map(|t| dirs(t)).map(|(a, b)| (a.min(b), a.max(b))).collect()
        };
        let (ea, eb) = (edges(&ma), edges(&mb));
        for (m, l, own, r, ol, oth) in [(&ma, la, &ea, &ra, lb, &eb), (&mb, lb, &eb, &rb, la, &ea)] {
            let xs = |e: (usize, usize)| -> Vec<SegX> {
                oth.iter().map(|o| seg_seg_i(&l.pts[e.0], &l.pts[e.1], &ol.pts[o.0], &ol.pts[o.1])).collect()
            };
            let ip = |p: &I3| -> [Rational; 2] { std::array::from_fn(|i| f.q(i, p[i])) };
            let rp = |p: &[Rational; 3]| -> [Rational; 2] { std::array::from_fn(|i| f.qr(i, &p[i])) };
            let is = |s: &IntersectionSegment<T, 2>, a: &[Rational; 2], b: &[Rational; 2]| {
                (same_pt(&s.segment.a, a) && same_pt(&s.segment.b, b)) || (same_pt(&s.segment.a, b) && same_pt(&s.segment.b, a))
            };
            let mut per: BTreeMap<(usize, usize), Vec<&IntersectionSegment<T, 2>>> = BTreeMap::new();
            for s in r.iter() {
                let Some([a, b]) = s.a.vertex_hint else { return fail("plane-hint", format!("{}: an end without its edge", w())); };
                ensure!(s.b.vertex_hint == Some([a, b]) && own.contains(&(a.min(b), a.max(b))), "plane-edge", "{}: a piece on edge {a}-{b}", w());
                let t = face_tri(m, s.initial_face_reference);
                ensure!(live_faces(m).contains(&s.initial_face_reference) && t.contains(&a) && t.contains(&b), "plane-face", "{}: a piece on edge {a}-{b} of face {}", w(), s.initial_face_reference);
                let (pa, pb) = (ip(&l.pts[a]), ip(&l.pts[b]));
                for (e, at) in [(&s.a, &s.segment.a), (&s.b, &s.segment.b)] {
                    let he = e.half_edge_hint.unwrap_or(usize::MAX);
                    ensure!(he < m.half_edges.len() && m.half_edges[he].vertex == b && m.half_edges[m.half_edges[he].twin].vertex == a, "plane-half-edge", "{}: half-edge {he} for {a}-{b}", w());
                    let mut fs = e.faces_hint.map(|x| x.to_vec()).unwrap_or_default();
                    let mut want: Vec<usize> = [m.half_edges[he].face, m.half_edges[m.half_edges[he].twin].face].into_iter().map(|x| x.unwrap_or(usize::MAX)).collect();
                    fs.sort();
                    want.sort();
                    ensure!(fs == want, "plane-faces", "{}: faces {fs:?} for {a}-{b}, wanted {want:?}", w());
                    let Some(u) = e.half_edge_u_hint.as_ref().and_then(|u| u.val()) else { return fail("plane-u", format!("{}: no place along {a}-{b}", w())); };
                    let q: [Rational; 2] = std::array::from_fn(|i| Rational::from(&pb[i] - &pa[i]) * &u + &pa[i]);
                    ensure!(same_pt(at, &q), "plane-located", "{}: {} described at {} of {a}-{b}", w(), show_pt(at), u.to_f64());
                }
                let ok = xs((a.min(b), a.max(b))).iter().any(|x| match x {
                    SegX::None => false,
                    SegX::Point(p) => { let p = rp(p); !s.coplanar && is(s, &p, &p) && p != pa && p != pb }
                    SegX::Overlap(p, q) => s.coplanar && is(s, &ip(p), &ip(q)),
                });
                ensure!(ok, "plane-extra", "{}: edge {a}-{b} does not meet the other mesh in {}-{}", w(), show_pt(&s.segment.a), show_pt(&s.segment.b));
                per.entry((a.min(b), a.max(b))).or_default().push(s);
            }
            for e in own {
                let (pa, pb) = (ip(&l.pts[e.0]), ip(&l.pts[e.1]));
                let empty = vec![];
                let got = per.get(e).unwrap_or(&empty);
                for x in xs(*e) {
                    c.case();
                    match x {
                        SegX::None => c.hit("edges apart"),
                        SegX::Point(p) => {
                            let p = rp(&p);
                            if p == pa || p == pb { c.hit("meeting at the edge's end"); continue; }
                            ensure!(got.iter().any(|s| same_pt(&s.segment.a, &p) || same_pt(&s.segment.b, &p)), "plane-missed", "{}: edge {e:?} is met at {:?}, not reported", w(), p.each_ref().map(|x| x.to_f64()));
                            c.hit("edges cross");
                        }
                        SegX::Overlap(p, q) => {
                            let (p, q) = (ip(&p), ip(&q));
                            ensure!(got.iter().any(|s| is(s, &p, &q)), "plane-overlap-missed", "{}: edge {e:?} shares {:?}-{:?} with the other mesh, not reported", w(), p.each_ref().map(|x| x.to_f64()), q.each_ref().map(|x| x.to_f64()));
                            c.hit("edges share a stretch");
                        }
                    }
                }
            }
        }
        Ok(())
    }

    /// every one of these meshes with every one of those, at every offset
    pub fn cross(name: &str, a: Vec<Lat>, b: Vec<Lat>, offs: Vec<I3>, fr: Vec<usize>) -> Family {
        let frs: Vec<Frame> = frames().into_iter().chain([beyond()]).enumerate().filter(|(i, _)| fr.contains(i)).map(|x| x.1).collect();
        family(format!("{}-{name}", T::NAME), (a.len() * frs.len()) as u64, move |i, c| {
            let mut d = Dec(i);
            let la = &a[d.take(a.len())];
            let f = &frs[d.take(frs.len())];
            for lb in &b {
                for o in &offs {
                    meet(f, la, &lb.at(o), c)?;
                }
            }
            Ok(())
        })
    }
    pub fn flat(name: &str, a: Vec<Lat>, b: Vec<Lat>, fr: Vec<usize>) -> Family {
        let frs: Vec<Frame> = frames().into_iter().chain([beyond()]).enumerate().filter(|(i, _)| fr.contains(i)).map(|x| x.1).collect();
        family(format!("{}-plane-{name}", T::NAME), (a.len() * frs.len()) as u64, move |i, c| {
            let mut d = Dec(i);
            let la = &a[d.take(a.len())];
            let f = &frs[d.take(frs.len())];
            for lb in &b {
                meet2(f, la, lb, c)?;
            }
            Ok(())
        })
    }
}

fn grid(a: i64, b: i64, c: i64) -> Vec<I3> {
    (0..a * b * c).map(|i| [i % a, i / a % b, i / a / b]).collect()
}
fn singles(pts: &[I3]) -> Vec<Lat> {
    let mut v = vec![];
    for a in 0..pts.len() {
        for b in a + 1..pts.len() {
            for c in b + 1..pts.len() {
                if !collinear_i(&pts[a], &pts[b], &pts[c]) {
                    v.push(Lat::new(vec![pts[a], pts[b], pts[c]], vec![[0, 1, 2]]));
                }
            }
        }
    }
    v
}
/// every pair of triangles with a common edge; in the plane only those that do not overlap
fn hinges(pts: &[I3], plane: bool) -> Vec<Lat> {
    let n = pts.len();
    let mut v = vec![];
    for b in 0..n {
        for c in b + 1..n {
            for a in 0..n {
                for d in a + 1..n {
                    if [a, d].contains(&b) || [a, d].contains(&c) || collinear_i(&pts[a], &pts[b], &pts[c]) || collinear_i(&pts[d], &pts[b], &pts[c]) {
                        continue;
                    }
                    let two = |p: &I3| -> [i64; 2] { [p[0], p[1]] };
                    if plane {
                        let s = |x: usize| sgn_i(orient_i(&[two(&pts[b]), two(&pts[c]), two(&pts[x])]));
                        if s(a) == s(d) {
                            continue;
                        }
                    }
                    v.push(Lat::new(vec![pts[a], pts[b], pts[c], pts[d]], vec![[0, 1, 2], [2, 1, 3]]));
                }
            }
        }
    }
    v
}
fn tets(pts: &[I3]) -> Vec<Lat> {
    let n = pts.len();
    let mut v = vec![];
    for a in 0..n {
        for b in a + 1..n {
            for c in b + 1..n {
                for d in c + 1..n {
                    let t = [pts[a], pts[b], pts[c], pts[d]];
                    if let Some(tr) = tet_tris(&t) {
                        v.push(Lat::new(t.to_vec(), tr));
                    }
                }
            }
        }
    }
    v
}
fn solid(v: Vec<Solid>) -> Vec<Lat> {
    v.into_iter().map(|s| Lat::new(s.pts, s.tris)).collect()
}

fn main() {
    let th = thorough();
    let cube = grid(2, 2, 2);
    // a tetrahedron with every set of faces taken away
    let holed: Vec<Lat> = {
        let t = Lat::new(vec![[0, 0, 0], [2, 0, 0], [0, 2, 0], [0, 0, 2]], tet_tris(&[[0, 0, 0], [2, 0, 0], [0, 2, 0], [0, 0, 2]]).unwrap());
        (0..16usize).map(|m| t.without((0..4).filter(|i| m >> i & 1 == 1).collect())).collect()
    };
    let offs: Vec<I3> = grid(3, 3, 3).into_iter().map(|p| p.map(|x| x - 1)).collect();
    let sheet = Lat::new(vec![[0, 0, 0], [2, 0, 0], [2, 2, 0], [0, 2, 0], [1, 1, 0]], vec![[0, 1, 4], [1, 2, 4], [2, 3, 4], [3, 0, 4]]);
    let holed2: Vec<Lat> = (0..16usize).map(|m| sheet.without((0..4).filter(|i| m >> i & 1 == 1).collect())).collect();
    let sq = grid(3, 3, 1);
    let rect = grid(3, 2, 1);
    run_check(
        "C26",
        Opts {
            rule: "every pair of small lattice surfaces (tetrahedra, block solids at every offset, hinges, sheets with every set of faces removed), every pair of their faces compared with exact clipping in integers; every pair of small planar meshes, every pair of their edges".into(),
            assumptions: vec![
                "triangles have area".into(),
                "coplanar faces that touch in a single point may be reported as not meeting".into(),
                "in the plane a crossing at an end of an edge is not reported for that edge, and a crossing at an end of a shared stretch is reported by the stretch".into(),
            ],
            ..Default::default()
        },
        vec![
            sf::cross("tets", tets(&cube), tets(&cube), vec![[0, 0, 0]], vec![0, 1, 3]),
            sf::cross("tets-long", tets(&grid(3, 2, 2)), tets(&cube), vec![[0, 0, 0]], vec![0]),
            sr::cross("tets", tets(&cube), tets(&cube), vec![[0, 0, 0]], vec![0, 5, 6]),
            sr::cross("tets-long", tets(&grid(3, 2, 2)), tets(&cube), vec![[0, 0, 0]], if th { vec![0, 1, 4] } else { vec![3] }),
            sl::cross("tets", tets(&cube), tets(&grid(2, 2, 2)), vec![[0, 0, 0]], if th { vec![0, 1, 2, 3, 4] } else { vec![4] }),
            sf::cross("hinge-triangle", hinges(&cube, false), singles(&cube), vec![[0, 0, 0]], vec![0]),
            sr::cross("hinge-triangle", hinges(&cube, false), singles(&cube), vec![[0, 0, 0]], if th { vec![0, 1, 4] } else { vec![1] }),
            sf::cross("triangle-hinge", singles(&cube), hinges(&cube, false), vec![[0, 0, 0]], vec![0]),
            sf::cross("holed", holed.clone(), holed.clone(), offs.clone(), vec![0, 3]),
            sr::cross("holed", holed.clone(), holed.clone(), vec![[0, 0, 0], [1, 0, 0], [1, 1, 1]], vec![0]),
            sl::cross("holed", holed.clone(), vec![holed[0].clone(), holed[9].clone()], offs.clone(), vec![1]),
            sf::cross("blocks", solid(blocks(2, 2, 1, 2, true)), solid(blocks(2, 1, 1, 2, false)), offs.clone(), vec![0]),
            sr::cross("blocks", solid(blocks(2, 1, 1, 2, true)), solid(blocks(2, 1, 1, 2, false)), offs.clone(), vec![0]),
            sl::cross("blocks", solid(blocks(2, 1, 1, 2, true)), solid(blocks(1, 1, 1, 2, false)), offs.clone(), vec![1]),
            sf::flat("triangles", singles(&sq), singles(&sq), vec![0, 1, 3]),
            sr::flat("triangles", singles(&sq), singles(&sq), vec![0, 1, 6]),
            sl::flat("triangles", singles(&sq), singles(&rect), vec![0, 4]),
            sf::flat("hinges", hinges(&rect, true), hinges(&sq, true), vec![0]),
            sr::flat("hinges", hinges(&rect, true), singles(&sq), vec![0]),
            sf::flat("holed", holed2.clone(), holed2.iter().map(|l| l.at(&[1, 0, 0])).chain(holed2.iter().cloned()).collect(), vec![0]),
            sr::flat("holed", holed2.clone(), holed2.iter().map(|l| l.at(&[1, 1, 0])).collect(), vec![0]),
        ],
    )
}
