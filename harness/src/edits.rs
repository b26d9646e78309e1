//! Mixed editing histories: one alphabet of edits (add, remove, split, flip, collapse) applied to
//! the real mesh and to a plain list of lattice triangles.
use crate::engine::*;
use crate::ensure;
use crate::geo::*;
use crate::mesh::*;
use cgar::geometry::aabb::Aabb;
use cgar::geometry::aabb_tree::AabbTree;
use cgar::geometry::point::Point;
use cgar::mesh::basic_types::{Mesh, SplitResultKind};
use cgar::mesh::edge_collapse::{CollapseOpts, Placement};
use cgar::numeric::cgar_f64::CgarF64;
use std::hash::{Hash, Hasher};
use std::collections::{BTreeMap, BTreeSet};

pub type M3 = Mesh<CgarF64, 3>;

/// the lattice is this fine, so that repeated midpoints stay on it
pub const FINE: i64 = 4096;

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum Op {
    Add(Tri),
    Remove(usize),
    SplitFace(usize),
    SplitEdge(usize, usize),
    Flip(usize, usize),
    Collapse(usize, usize),
}

#[derive(Clone, Debug)]
pub struct Model {
    pub v: Vec<Option<I3>>,
    pub live: BTreeMap<usize, Tri>,
}

struct Stay(Point<CgarF64, 3>);
impl Placement<CgarF64, 3> for Stay {
    fn place(&self, _: &M3, _: usize, _: usize) -> Point<CgarF64, 3> {
        self.0.clone()
    }
}

pub fn at(p: &I3) -> Point<CgarF64, 3> {
    Point { coords: p.map(|x| CgarF64(x as f64)) }
}

/// no three of the starting corners are collinear
pub fn start(n: usize, ts: &[Tri]) -> (M3, Model) {
    let mut m = M3::new();
    let mut v = vec![];
    for i in 0..n as i64 {
        let p = [i * FINE, i * i * FINE, i * i * i * FINE];
        m.add_vertex(at(&p));
        v.push(Some(p));
    }
    for t in ts {
        m.add_triangle(t[0], t[1], t[2]);
    }
    (m, Model { v, live: ts.iter().enumerate().map(|(i, t)| (i, canon(*t))).collect() })
}

impl Model {
    pub fn soup(&self) -> Soup {
        Soup { tris: self.live.iter().map(|(a, b)| (*a, *b)).collect() }
    }
    /// identifies the state up to the handles of its faces
    pub fn key(&self) -> u64 {
        let mut t: Vec<&Tri> = self.live.values().collect();
        t.sort();
        let mut h = std::hash::DefaultHasher::new();
        (&self.v, t).hash(&mut h);
        h.finish()
    }
    pub fn edges(&self) -> Vec<(usize, usize)> {
        let e: BTreeSet<(usize, usize)> = self.live.values().flat_map(|t| dirs(*t)).flat_map(|(a, b)| [(a, b), (b, a)]).collect();
        e.into_iter().collect()
    }
    fn flat(&self, t: Tri) -> bool {
        let p = t.map(|i| self.v[i].unwrap());
        cross3(&sub(&p[1], &p[0]), &sub(&p[2], &p[0])) == [0; 3]
    }
    fn mid(&self, a: usize, b: usize) -> I3 {
        let p = [a, b].map(|i| self.v[i].unwrap());
        std::array::from_fn(|i| (p[0][i] + p[1][i]) / 2)
    }
    fn inner(&self, f: usize) -> I3 {
        let p = self.live[&f].map(|i| self.v[i].unwrap());
        std::array::from_fn(|i| (2 * p[0][i] + p[1][i] + p[2][i]) / 4)
    }
    /// no vertex there yet (a split at a vertex only names it)
    fn vacant(&self, p: I3) -> bool {
        !self.v.contains(&Some(p))
    }
    /// every edit offered in this state; pinched surfaces are not collapsed
    pub fn ops(&self) -> Vec<Op> {
        let s = self.soup();
        let mut o = vec![];
        for (f, _) in &self.live {
            o.push(Op::Remove(*f));
            if self.vacant(self.inner(*f)) {
                o.push(Op::SplitFace(*f));
            }
        }
        let whole = s.manifold_vertices();
        for (a, b) in self.edges() {
            if self.vacant(self.mid(a, b)) {
                o.push(Op::SplitEdge(a, b));
            }
            if a < b {
                o.push(Op::Flip(a, b));
            }
            if whole {
                o.push(Op::Collapse(a, b));
            }
        }
        // close a corner of the border
        let free = |a: usize, b: usize| s.dir(a, b).is_none();
        let border: Vec<(usize, usize)> = self.edges().into_iter().filter(|(a, b)| free(*a, *b)).collect();
        for &(a, b) in &border {
            for &(x, c) in &border {
                if x == b && c != a && free(c, a) && !self.flat([a, b, c]) {
                    o.push(Op::Add([a, b, c]));
                }
            }
        }
        o
    }
    /// the triangles after the edit (new faces without their handle), or None when it is refused
    fn apply(&self, op: Op) -> Option<(Vec<Tri>, Vec<usize>, Option<I3>, Option<usize>)> {
        let s = self.soup();
        let but = |gone: &[usize], add: &[Tri]| -> Vec<Tri> {
            let mut v: Vec<Tri> = self.live.iter().filter(|(f, _)| !gone.contains(f)).map(|x| *x.1).chain(add.iter().map(|t| canon(*t))).collect();
            v.sort();
            v
        };
        let keep = |gone: &[usize]| -> Vec<usize> { self.live.keys().copied().filter(|f| !gone.contains(f)).collect() };
        let n = self.v.len();
        match op {
            Op::Add(t) => Some((but(&[], &[t]), keep(&[]), None, None)),
            Op::Remove(f) => Some((but(&[f], &[]), keep(&[f]), None, None)),
            Op::SplitFace(f) => {
                let [a, b, c] = self.live[&f];
                Some((but(&[f], &[[a, b, n], [b, c, n], [c, a, n]]), keep(&[f]), Some(self.inner(f)), None))
            }
            Op::SplitEdge(a, b) => {
                if s.dir(a, b).map(|x| x.1) == s.dir(b, a).map(|x| x.1) {
                    return None;
                }
                let (mut gone, mut add) = (vec![], vec![]);
                for (x, y) in [(a, b), (b, a)] {
                    if let Some((f, c)) = s.dir(x, y) {
                        gone.push(f);
                        add.push([x, n, c]);
                        add.push([n, y, c]);
                    }
                }
                Some((but(&gone, &add), keep(&gone), Some(self.mid(a, b)), None))
            }
            Op::Flip(a, b) => {
                let ((f, c), (g, d)) = (s.dir(a, b)?, s.dir(b, a)?);
                let new = [[a, d, c], [b, c, d]];
                if c == d || s.edge(c, d) || new.iter().any(|t| self.flat(*t)) {
                    return None;
                }
                Some((but(&[f, g], &new), keep(&[f, g]), None, None))
            }
            Op::Collapse(u, v) => {
                let (l, r) = (s.dir(u, v), s.dir(v, u));
                let opp: BTreeSet<usize> = [l, r].into_iter().flatten().map(|x| x.1).collect();
                let common: BTreeSet<usize> = s.neighbors(u).intersection(&s.neighbors(v)).copied().collect();
                if l.map(|x| x.1) == r.map(|x| x.1) || common != opp {
                    return None;
                }
                let whole = s.faces_of(u) == s.faces_of(v);
                if !whole && l.is_some() && r.is_some() && s.border(u) && s.border(v) {
                    return None;
                }
                let gone: Vec<usize> = s.faces_of(u).intersection(&s.faces_of(v)).copied().collect();
                let moved: Vec<usize> = s.faces_of(v).into_iter().filter(|f| !gone.contains(f)).collect();
                let add: Vec<Tri> = moved.iter().map(|f| self.live[f].map(|x| if x == v { u } else { x })).collect();
                if add.iter().any(|t| self.flat(*t)) {
                    return None;
                }
                let out: Vec<usize> = gone.iter().chain(&moved).copied().collect();
                Some((but(&out, &add), keep(&out), None, Some(v)))
            }
        }
    }
}

/// apply one edit to both sides and compare; true when it was carried out
pub fn step(m: &mut M3, md: &mut Model, op: Op, w: &dyn Fn() -> String) -> Result<bool, Fail> {
    let want = md.apply(op);
    let mut tree: AabbTree<CgarF64, 3, Point<CgarF64, 3>, usize> = AabbTree::build(vec![(Aabb::from_points(&at(&[0; 3]), &at(&[0; 3])), 0)]);
    let new = md.v.len();
    let point = match op {
        Op::SplitFace(f) => Some(md.inner(f)),
        Op::SplitEdge(a, b) => Some(md.mid(a, b)),
        _ => None,
    };
    let ok = match op {
        Op::Add(t) => m.add_triangle(t[0], t[1], t[2]) != usize::MAX,
        Op::Remove(f) => {
            m.remove_triangle(f);
            true
        }
        Op::SplitFace(f) => match m.split_face(&mut tree, f, &at(&point.unwrap()), false) {
            Ok(r) => {
                ensure!(r.vertex == new && matches!(r.kind, SplitResultKind::SplitFace), "report", "{}: the report names vertex {} and kind {:?}", w(), r.vertex, r.kind);
                true
            }
            Err(_) => false,
        },
        Op::SplitEdge(a, b) => match m.split_edge(&mut tree, m.edge_map[&(a, b)], &at(&point.unwrap()), false) {
            Ok(r) => {
                ensure!(r.vertex == new && matches!(r.kind, SplitResultKind::SplitEdge), "report", "{}: the report names vertex {} and kind {:?}", w(), r.vertex, r.kind);
                true
            }
            Err(_) => false,
        },
        Op::Flip(a, b) => m.flip_edge(m.edge_map[&(a, b)]).is_ok(),
        Op::Collapse(u, v) => {
            let o = CollapseOpts { area_eps2: CgarF64(0.0), forbid_border: false, forbid_normal_flip: false };
            let stay = Stay(m.vertices[u].position.clone());
            match m.collapse_edge_begin_vertices(u, v, &stay, &o) {
                Ok(p) => {
                    let r = m.collapse_edge_commit(p);
                    ensure!(r.is_ok(), "commit", "{}: the accepted collapse failed: {r:?}", w());
                    true
                }
                Err(_) => false,
            }
        }
    };
    ensure!(ok == want.is_some(), if ok { "accepted" } else { "refused" }, "{}: the last edit was {}", w(), if ok { "accepted" } else { "refused" });
    if let Err(e) = invariants(m) {
        return fail("structure", format!("{}: {e}", w()));
    }
    let (tris, same) = match &want {
        Some(x) => (x.0.clone(), x.1.clone()),
        None => {
            let mut t: Vec<Tri> = md.live.values().copied().collect();
            t.sort();
            (t, md.live.keys().copied().collect())
        }
    };
    ensure!(soup(m) == tris, "triangles", "{}: triangles {:?}, should be {tris:?}", w(), soup(m));
    for f in same {
        ensure!(!m.faces[f].removed && face_tri(m, f) == md.live[&f], "handles", "{}: face {f} was not part of the edit and changed", w());
    }
    if let Some((_, _, p, gone)) = want {
        if let Some(p) = p {
            md.v.push(Some(p));
        }
        if let Some(v) = gone {
            md.v[v] = None;
        }
    }
    ensure!(m.vertices.len() == md.v.len(), "vertex-count", "{}: {} vertices, should be {}", w(), m.vertices.len(), md.v.len());
    for (i, p) in md.v.iter().enumerate() {
        ensure!(m.vertices[i].removed == p.is_none(), "removed", "{}: vertex {i} removed={}", w(), m.vertices[i].removed);
        if let Some(p) = p {
            ensure!(m.vertices[i].position == at(p), "position", "{}: vertex {i} moved", w());
        }
    }
    md.live = live_faces(m).into_iter().map(|f| (f, face_tri(m, f))).collect();
    Ok(ok)
}
