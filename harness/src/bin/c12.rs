//! C12: splitting faces and edges refines the mesh exactly where asked, through every history.
use cgar::geometry::aabb::Aabb;
use cgar::geometry::aabb_tree::AabbTree;
use cgar::geometry::point::Point;
use cgar::mesh::basic_types::{Mesh, SplitResultKind};
use mc::engine::*;
use mc::ensure;
use mc::geo::*;
use mc::mesh::*;
use mc::per_scalar;
use std::collections::{BTreeMap, BTreeSet};

#[derive(Clone)]
struct Shape {
    name: &'static str,
    v: Vec<I3>,
    t: Vec<Tri>,
    /// lattice points on the surface
    p: Vec<I3>,
    planar: bool,
}

fn inside_strict(p: &I3, a: &I3, b: &I3) -> bool {
    p != a && p != b && on_segment_i(p, a, b)
}
fn edge_of(t: &Tri, v: &[I3], p: &I3) -> Option<(usize, usize)> {
    dirs(*t).into_iter().find(|(a, b)| inside_strict(p, &v[*a], &v[*b]))
}
fn contains(t: &Tri, v: &[I3], p: &I3) -> bool {
    let n = cross3(&sub(&v[t[1]], &v[t[0]]), &sub(&v[t[2]], &v[t[0]]));
    if dot(&n, &sub(p, &v[t[0]])) != 0 {
        return false;
    }
    dirs(*t).iter().all(|(a, b)| dot(&n, &cross3(&sub(&v[*b], &v[*a]), &sub(p, &v[*a]))) >= 0)
}

fn surface(v: &[I3], t: &[Tri]) -> Vec<I3> {
    let (lo, hi) = (v.iter().flatten().min().unwrap(), v.iter().flatten().max().unwrap());
    let mut out = vec![];
    for x in *lo..=*hi {
        for y in *lo..=*hi {
            for z in *lo..=*hi {
                let p = [x, y, z];
                if t.iter().any(|t| contains(t, v, &p)) {
                    out.push(p);
                }
            }
        }
    }
    out
}

fn shape(name: &'static str, v: Vec<I3>, t: Vec<Tri>, planar: bool) -> Shape {
    let p = surface(&v, &t);
    Shape { name, v, t, p, planar }
}

fn planar_shapes() -> Vec<Shape> {
    vec![
        shape("triangle", vec![[0, 0, 0], [4, 0, 0], [0, 4, 0]], vec![[0, 1, 2]], true),
        shape("square", vec![[0, 0, 0], [3, 0, 0], [3, 3, 0], [0, 3, 0]], vec![[0, 1, 2], [0, 2, 3]], true),
        shape("fan", vec![[0, 0, 0], [4, 0, 0], [4, 4, 0], [0, 4, 0], [2, 2, 0]], vec![[0, 1, 4], [1, 2, 4], [2, 3, 4], [3, 0, 4]], true),
        shape("open fan", vec![[0, 0, 0], [4, 0, 0], [4, 4, 0], [0, 4, 0], [2, 2, 0]], vec![[0, 1, 4], [1, 2, 4], [2, 3, 4]], true),
    ]
}
fn spatial_shapes() -> Vec<Shape> {
    let o = vec![[3, 0, 0], [-3, 0, 0], [0, 3, 0], [0, -3, 0], [0, 0, 3], [0, 0, -3]];
    let ot = vec![[0, 2, 4], [2, 1, 4], [1, 3, 4], [3, 0, 4], [2, 0, 5], [1, 2, 5], [3, 1, 5], [0, 3, 5]];
    let c = vec![[0, 0, 0], [3, 0, 0], [3, 3, 0], [0, 3, 0], [0, 0, 3], [3, 0, 3], [3, 3, 3], [0, 3, 3]];
    let ct = vec![
        [0, 2, 1], [0, 3, 2], [4, 5, 6], [4, 6, 7], [0, 1, 5], [0, 5, 4],
        [1, 2, 6], [1, 6, 5], [2, 3, 7], [2, 7, 6], [3, 0, 4], [3, 4, 7],
    ];
    let open: Vec<Tri> = ct[..10].to_vec();
    vec![
        shape("tetrahedron", vec![[0, 0, 0], [4, 0, 0], [0, 4, 0], [0, 0, 4]], vec![[0, 2, 1], [0, 1, 3], [1, 2, 3], [2, 0, 3]], false),
        shape("octahedron", o, ot, false),
        shape("cube", c.clone(), ct, false),
        shape("open box", c, open, false),
    ]
}

#[derive(Clone, Debug)]
struct Model {
    v: Vec<I3>,
    live: BTreeMap<usize, Tri>,
    slots: usize,
}

#[derive(Clone, Copy, Debug)]
enum Op {
    /// point, starting face
    Face(I3, usize),
    /// half-edge given by its two end points, point
    Edge(usize, usize, I3),
}

enum Want {
    Vertex(usize),
    Edge(usize, usize),
    Face(usize),
}

impl Model {
    fn new(s: &Shape) -> Model {
        Model { v: s.v.clone(), live: s.t.iter().enumerate().map(|(i, t)| (i, canon(*t))).collect(), slots: s.t.len() }
    }
    fn locate(&self, s: &Shape, start: usize, p: &I3) -> Want {
        if let Some(i) = self.v.iter().position(|q| q == p) {
            return Want::Vertex(i);
        }
        let cand: Vec<(usize, Tri)> = if s.planar {
            self.live.iter().map(|(f, t)| (*f, *t)).collect()
        } else {
            vec![(start, self.live[&start])]
        };
        for (_, t) in &cand {
            if let Some((a, b)) = edge_of(t, &self.v, p) {
                return Want::Edge(a, b);
            }
        }
        Want::Face(cand.iter().find(|(_, t)| contains(t, &self.v, p)).unwrap().0)
    }
    /// triangles taken out and triangles put in when w is put on the edge or face
    fn change(&self, want: &Want, w: usize) -> (Vec<usize>, BTreeSet<Tri>) {
        let mut out = vec![];
        let mut new = BTreeSet::new();
        match want {
            Want::Vertex(_) => {}
            Want::Face(f) => {
                out.push(*f);
                for (a, b) in dirs(self.live[f]) {
                    new.insert(canon([a, b, w]));
                }
            }
            Want::Edge(a, b) => {
                for (f, t) in &self.live {
                    for (i, (x, y)) in dirs(*t).into_iter().enumerate() {
                        if (x, y) == (*a, *b) || (x, y) == (*b, *a) {
                            out.push(*f);
                            let z = t[(i + 2) % 3];
                            new.insert(canon([x, w, z]));
                            new.insert(canon([w, y, z]));
                        }
                    }
                }
            }
        }
        (out, new)
    }
    fn ops(&self, s: &Shape) -> Vec<Op> {
        let mut v = vec![];
        for p in &s.p {
            let holds: Vec<usize> = self.live.iter().filter(|(_, t)| contains(t, &self.v, p)).map(|x| *x.0).collect();
            let starts: BTreeSet<usize> = if s.planar {
                [0, self.slots - 1, *self.live.keys().next().unwrap(), holds[0]].into_iter().collect()
            } else {
                holds.into_iter().collect()
            };
            v.extend(starts.into_iter().map(|f| Op::Face(*p, f)));
        }
        let es: BTreeSet<(usize, usize)> = self.live.values().flat_map(|t| dirs(*t)).flat_map(|(a, b)| [(a, b), (b, a)]).collect();
        for (a, b) in es {
            v.extend(s.p.iter().filter(|p| inside_strict(p, &self.v[a], &self.v[b])).map(|p| Op::Edge(a, b, *p)));
        }
        // an edge asked to split where a vertex already is
        let t = self.live.values().next().unwrap();
        v.push(Op::Edge(t[0], t[1], self.v[t[0]]));
        v.push(Op::Edge(t[0], t[1], self.v[t[2]]));
        v
    }
}

macro_rules! body {
    ($N:literal) => {
        use super::*;
        type M = Mesh<T, $N>;
        type Tree = AabbTree<T, $N, Point<T, $N>, usize>;
        fn at(f: &Frame, s: &Shape, p: &I3) -> Point<T, $N> {
            // flat shapes are tilted in space
            let q = if s.planar { [p[0], p[1], p[0] + 2 * p[1]] } else { *p };
            let mut a = [0i64; $N];
            a.copy_from_slice(&q[..$N]);
            pt::<T, $N>(f, &a)
        }
        fn lp(s: &Shape, p: &I3) -> I3 {
            if !s.planar {
                *p
            } else if $N == 2 {
                [p[0], p[1], 0]
            } else {
                [p[0], p[1], p[0] + 2 * p[1]]
            }
        }
        fn start(f: &Frame, s: &Shape) -> M {
            let mut m = M::new();
            for p in &s.v {
                m.add_vertex(at(f, s, p));
            }
            for t in &s.t {
                m.add_triangle(t[0], t[1], t[2]);
            }
            m
        }
        fn tree_agrees(tree: &Tree, mo: &Model, fr: &Frame, s: &Shape, w: &dyn Fn() -> String) -> Res {
            let n = s.p.len();
            let qs = [(0, n - 1), (0, 0), (n - 1, n - 1), (n / 2, n / 2), (n / 3, n / 2)];
            for (i, j) in qs {
                let (a, b) = (lp(s, &s.p[i]), lp(s, &s.p[j]));
                let bx = Aabb::from_points(&at(fr, s, &s.p[i]), &at(fr, s, &s.p[j]));
                let mut got = vec![];
                tree.query_valid(&bx, &mut got);
                let got: Vec<usize> = { let mut g: Vec<usize> = got.into_iter().copied().collect(); g.sort(); g };
                let want: Vec<usize> = mo.live.iter().filter(|(_, t)| (0..$N).all(|k| {
                    let c: Vec<i64> = t.iter().map(|x| lp(s, &mo.v[*x])[k]).collect();
                    *c.iter().min().unwrap() <= a[k].max(b[k]) && *c.iter().max().unwrap() >= a[k].min(b[k])
                })).map(|x| *x.0).collect();
                ensure!(got == want, "tree", "{}: box {a:?}..{b:?} finds faces {got:?}, should find {want:?}", w());
            }
            Ok(())
        }
        fn step(m: &mut M, mo: &mut Model, tree: &mut Tree, fr: &Frame, s: &Shape, op: Op, upd: bool, last: bool, c: &mut Ctx, w: &dyn Fn() -> String) -> Res {
            c.call(1);
            if last {
                c.case();
            }
            let (p, want, r) = match op {
                Op::Face(p, f) => {
                    let want = mo.locate(s, f, &p);
                    (p, want, m.split_face(tree, f, &at(fr, s, &p), upd))
                }
                Op::Edge(a, b, p) => {
                    let want = match mo.v.iter().position(|q| *q == p) {
                        Some(i) => Want::Vertex(i),
                        None => Want::Edge(a, b),
                    };
                    let h = match m.edge_map.get(&(a, b)) {
                        Some(h) => *h,
                        None => return fail("edge-lookup", format!("{}: edge {a}-{b} is not in the lookup", w())),
                    };
                    (p, want, m.split_edge(tree, h, &at(fr, s, &p), upd))
                }
            };
            let r = match r {
                Ok(r) => r,
                Err(e) => return fail("error", format!("{}: {e}", w())),
            };
            let nw = mo.v.len();
            let new: Vec<usize> = r.new_faces.iter().copied().filter(|f| *f != usize::MAX).collect();
            let (out, add) = mo.change(&want, nw);
            match want {
                Want::Vertex(v) => {
                    ensure!(r.vertex == v, "vertex", "{}: gave vertex {} instead of {v}", w(), r.vertex);
                    ensure!(matches!(r.kind, SplitResultKind::NoSplit), "kind", "{}: a split was reported at a vertex", w());
                    if last { c.hit("vertex"); }
                }
                Want::Edge(..) => {
                    ensure!(matches!(r.kind, SplitResultKind::SplitEdge), "kind", "{}: not reported as an edge split", w());
                    if last { c.hit(if out.len() == 1 { "border edge" } else { "edge" }); }
                }
                Want::Face(_) => {
                    ensure!(matches!(r.kind, SplitResultKind::SplitFace), "kind", "{}: not reported as a face split", w());
                    if last { c.hit("face"); }
                }
            }
            if !matches!(want, Want::Vertex(_)) {
                ensure!(r.vertex == nw, "vertex", "{}: gave vertex {} instead of the new one {nw}", w(), r.vertex);
                mo.v.push(p);
            }
            ensure!(m.vertices.len() == mo.v.len(), "vertex-count", "{}: {} vertices instead of {}", w(), m.vertices.len(), mo.v.len());
            ensure!(m.vertices[r.vertex].position == at(fr, s, &p), "position", "{}: the vertex is not at the point", w());
            if last {
                if let Err(e) = invariants(m) {
                    return fail("structure", format!("{}: {e}", w()));
                }
            }
            for f in &out {
                mo.live.remove(f);
            }
            ensure!(new.iter().collect::<BTreeSet<_>>().len() == new.len() && new.len() == add.len(), "new-faces", "{}: reported faces {new:?} for triangles {add:?}", w());
            for f in &new {
                ensure!(*f >= mo.slots && *f < m.faces.len() && !m.faces[*f].removed, "new-faces", "{}: reported face {f} is not a new live one", w());
                let t = face_tri(m, *f);
                ensure!(add.contains(&t), "new-triangle", "{}: new face {t:?}, expected {add:?}", w());
                mo.live.insert(*f, t);
            }
            mo.slots = m.faces.len();
            ensure!(live_faces(m) == mo.live.keys().copied().collect::<Vec<_>>(), "live", "{}: live faces {:?}, should be {:?}", w(), live_faces(m), mo.live.keys());
            for (f, t) in &mo.live {
                ensure!(face_tri(m, *f) == *t, "triangle", "{}: face {f} is {:?}, should be {t:?}", w(), face_tri(m, *f));
            }
            if upd && last {
                tree_agrees(tree, mo, fr, s, w)?;
            }
            Ok(())
        }
        fn replay(fr: &Frame, s: &Shape, trace: &[Op], upd: bool, c: &mut Ctx) -> Result<(M, Model), Fail> {
            let mut m = start(fr, s);
            let mut mo = Model::new(s);
            let mut tree = m.build_face_tree();
            for (k, op) in trace.iter().enumerate() {
                let w = || format!("{} {}D {} history {:?}", T::NAME, $N, s.name, &trace[..=k]);
                step(&mut m, &mut mo, &mut tree, fr, s, *op, upd, k + 1 == trace.len(), c, &w)?;
            }
            Ok((m, mo))
        }
        fn walk(fr: &Frame, s: &Shape, trace: &mut Vec<Op>, left: usize, c: &mut Ctx) -> Res {
            c.tick();
            let (_, mo) = replay(fr, s, trace, true, c)?;
            if left == 0 {
                return Ok(());
            }
            for op in mo.ops(s) {
                trace.push(op);
                walk(fr, s, trace, left - 1, c)?;
                trace.pop();
            }
            Ok(())
        }
        /// every lattice point put in, one after the other, in every order that takes equal strides
        pub fn long(s: Shape) -> Family {
            let fr = frames().remove(match T::NAME { "lazy" => 5, "rational" => 1, _ => 0 });
            let n = s.p.len();
            let strides: Vec<usize> = (1..n).filter(|g| { let (mut a, mut b) = (*g, n); while b > 0 { (a, b) = (b, a % b); } a == 1 }).collect();
            family(format!("{}-{}d-long-{}-{n}", T::NAME, $N, s.name.replace(' ', "-")), (strides.len() * 4) as u64, move |i, c| {
                let mut d = Dec(i);
                let how = d.take(4);
                let g = strides[d.take(strides.len())];
                let mut m = start(&fr, &s);
                let mut mo = Model::new(&s);
                let mut tree = m.build_face_tree();
                let mut trace = vec![];
                c.sample(|| format!("{} {}: stride {g}", T::NAME, s.name));
                for j in 0..n {
                    c.tick();
                    let p = s.p[(j * g + g / 2) % n];
                    let holds: Vec<usize> = mo.live.iter().filter(|(_, t)| contains(t, &mo.v, &p)).map(|x| *x.0).collect();
                    let from = match (how, s.planar) {
                        (0, true) => 0,
                        (1, true) => mo.slots - 1,
                        (2, _) | (0, _) => holds[0],
                        _ => holds[holds.len() - 1],
                    };
                    trace.push(Op::Face(p, from));
                    let w = || format!("{} {}D {} history {trace:?}", T::NAME, $N, s.name);
                    step(&mut m, &mut mo, &mut tree, &fr, &s, trace[j], true, true, c, &w)?;
                }
                Ok(())
            })
        }
        pub fn histories(s: Shape, depth: usize) -> Family {
            let fr = frames().remove(match T::NAME { "lazy" => 5, "rational" => 1, _ => 0 });
            let ops = Model::new(&s).ops(&s);
            family(format!("{}-{}d-{}", T::NAME, $N, s.name.replace(' ', "-")), ops.len() as u64, move |i, c| {
                let mut trace = vec![ops[i as usize]];
                // without tree updates the mesh comes out the same
                let (a, ma) = replay(&fr, &s, &trace, false, c)?;
                let (b, mb) = replay(&fr, &s, &trace, true, c)?;
                ensure!(soup(&a) == soup(&b) && ma.v == mb.v, "tree-flag", "{:?}: the mesh depends on the tree flag", trace);
                c.sample(|| format!("{} {}: all histories of {depth} splits starting with {:?}", T::NAME, s.name, trace[0]));
                walk(&fr, &s, &mut trace, depth - 1, c)
            })
        }
    };
}

per_scalar! {
    pub mod d2 { body!(2); }
    pub mod d3 { body!(3); }
}

fn main() {
    let th = thorough() as usize;
    let pl = planar_shapes();
    let sp = spatial_shapes();
    let mut f = vec![];
    for s in &pl {
        f.push(sf::d2::histories(s.clone(), if s.name == "triangle" { 3 + th } else { 3 }));
        f.push(sf::d3::histories(s.clone(), 2 + th));
        f.push(sr::d2::histories(s.clone(), 2));
        f.push(sr::d3::histories(s.clone(), 2));
        f.push(sl::d2::histories(s.clone(), 2));
        f.push(sl::d3::histories(s.clone(), 2));
    }
    for s in &sp {
        f.push(sf::d3::histories(s.clone(), 2 + th));
        f.push(sr::d3::histories(s.clone(), 1 + th));
        f.push(sl::d3::histories(s.clone(), 1 + th));
    }
    let grown = |s: &Shape, k: i64| shape(s.name, s.v.iter().map(|p| p.map(|x| x * k)).collect(), s.t.clone(), s.planar);
    for s in &pl {
        f.push(sf::d2::long(grown(s, 3 + th as i64)));
        f.push(sf::d3::long(grown(s, 2 + th as i64)));
        f.push(sr::d2::long(grown(s, 1 + th as i64)));
        f.push(sl::d3::long(grown(s, 1 + th as i64)));
    }
    for s in &sp {
        f.push(sf::d3::long(grown(s, 2 + th as i64)));
        f.push(sr::d3::long(s.clone()));
    }
    run_check(
        "C12",
        Opts {
            rule: "every history of face and edge splits at lattice points up to the depth bound; after each split the mesh and the box tree are compared with a plain list of triangles".into(),
            assumptions: vec!["in space the face given contains the point; in the plane any earlier or present face may be given".into()],
            ..Default::default()
        },
        f,
    )
}
