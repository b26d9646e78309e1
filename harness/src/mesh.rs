//! Oracle side of the mesh checks: structural invariants read from the public fields, and the
//! plain triangle-soup model every edit is compared with.
use cgar::mesh::basic_types::Mesh;
use cgar::numeric::scalar::Scalar;
use std::collections::{BTreeMap, BTreeSet};

pub type Tri = [usize; 3];

/// rotation with the smallest vertex first (orientation kept)
pub fn canon(t: Tri) -> Tri {
    let i = (0..3).min_by_key(|&i| t[i]).unwrap();
    [t[i], t[(i + 1) % 3], t[(i + 2) % 3]]
}
pub fn flip(t: Tri) -> Tri {
    [t[0], t[2], t[1]]
}
pub fn dirs(t: Tri) -> [(usize, usize); 3] {
    [(t[0], t[1]), (t[1], t[2]), (t[2], t[0])]
}

/// vertices of a live face, read by walking the public fields
pub fn face_tri<T: Scalar, const N: usize>(m: &Mesh<T, N>, f: usize) -> Tri {
    let h0 = m.faces[f].half_edge;
    let h1 = m.half_edges[h0].next;
    let h2 = m.half_edges[h1].next;
    canon([m.half_edges[h0].vertex, m.half_edges[h1].vertex, m.half_edges[h2].vertex])
}

pub fn live_faces<T: Scalar, const N: usize>(m: &Mesh<T, N>) -> Vec<usize> {
    (0..m.faces.len()).filter(|&f| !m.faces[f].removed).collect()
}

/// sorted canonical triangles of the live faces
pub fn soup<T: Scalar, const N: usize>(m: &Mesh<T, N>) -> Vec<Tri> {
    let mut v: Vec<Tri> = live_faces(m).into_iter().map(|f| face_tri(m, f)).collect();
    v.sort();
    v
}

/// Every structural rule of a half-edge mesh, over its live elements. Ok, or the broken rule.
pub fn invariants<T: Scalar, const N: usize>(m: &Mesh<T, N>) -> Result<(), String> {
    let (nh, nf, nv) = (m.half_edges.len(), m.faces.len(), m.vertices.len());
    let he = |h: usize| &m.half_edges[h];
    let live = |h: usize| h < nh && !m.half_edges[h].removed;
    let mut seen: BTreeMap<(usize, usize), usize> = BTreeMap::new();
    let mut touched = vec![false; nv];
    for h in 0..nh {
        if he(h).removed {
            continue;
        }
        let e = he(h);
        if e.vertex >= nv {
            return Err(format!("half-edge {h} points at vertex {}", e.vertex));
        }
        if m.vertices[e.vertex].removed {
            return Err(format!("half-edge {h} points at removed vertex {}", e.vertex));
        }
        if !live(e.twin) || e.twin == h || he(e.twin).twin != h {
            return Err(format!("half-edge {h} has twin {} which does not point back", e.twin));
        }
        if !live(e.next) || !live(e.prev) {
            return Err(format!("half-edge {h} (to {}) has dead neighbours next {} prev {}", e.vertex, e.next, e.prev));
        }
        if he(e.next).prev != h || he(e.prev).next != h {
            return Err(format!("half-edge {h}: next/prev are not reciprocal"));
        }
        if he(e.next).face != e.face {
            return Err(format!("half-edge {h} and its successor lie in different faces"));
        }
        let tail = he(e.twin).vertex;
        if tail == e.vertex {
            return Err(format!("half-edge {h} is a loop at {tail}"));
        }
        let ntail = he(he(e.next).twin).vertex;
        if ntail != e.vertex {
            return Err(format!("half-edge {h} ends at {} but its successor starts at {ntail}", e.vertex));
        }
        touched[tail] = true;
        touched[e.vertex] = true;
        if let Some(o) = seen.insert((tail, e.vertex), h) {
            return Err(format!("directed edge ({tail},{}) exists twice: {o} and {h}", e.vertex));
        }
        match e.face {
            Some(f) => {
                if f >= nf || m.faces[f].removed {
                    return Err(format!("half-edge {h} belongs to dead face {f}"));
                }
                let h0 = m.faces[f].half_edge;
                if !live(h0) {
                    return Err(format!("face {f} has dead half-edge {h0}"));
                }
                if h != h0 && h != he(h0).next && h != he(h0).prev {
                    return Err(format!("half-edge {h} claims face {f} but is not on its boundary"));
                }
            }
            None => {
                if he(e.twin).face.is_none() {
                    return Err(format!("edge ({tail},{}) has no face on either side", e.vertex));
                }
            }
        }
    }
    for f in 0..nf {
        if m.faces[f].removed {
            continue;
        }
        let h0 = m.faces[f].half_edge;
        if !live(h0) {
            return Err(format!("face {f} has dead half-edge {h0}"));
        }
        let (h1, h2) = (he(h0).next, he(he(h0).next).next);
        if he(h2).next != h0 || h0 == h1 || h1 == h2 {
            return Err(format!("face {f} is not a triangle"));
        }
        if [h0, h1, h2].iter().any(|&h| he(h).face != Some(f)) {
            return Err(format!("face {f} is bounded by half-edges of another face"));
        }
    }
    let map: BTreeMap<(usize, usize), usize> = m.edge_map.iter().map(|(k, v)| (*k, *v)).collect();
    if map != seen {
        let extra: Vec<_> = map.iter().filter(|(k, v)| seen.get(k) != Some(v)).collect();
        let missing: Vec<_> = seen.iter().filter(|(k, v)| map.get(k) != Some(v)).collect();
        return Err(format!("edge map differs from the live half-edges: extra {extra:?} missing {missing:?}"));
    }
    for v in 0..nv {
        match m.vertices[v].half_edge {
            Some(h) => {
                if !live(h) {
                    // a vertex without live edges may keep a stale handle only if it is removed
                    if touched[v] || !m.vertices[v].removed {
                        return Err(format!("vertex {v} has dead half-edge {h}"));
                    }
                } else if he(he(h).twin).vertex != v {
                    return Err(format!("vertex {v} has half-edge {h}, which starts elsewhere"));
                }
            }
            None => {
                if touched[v] {
                    return Err(format!("vertex {v} has edges but no half-edge"));
                }
            }
        }
    }
    Ok(())
}

/// brute-force adjacency derived from a triangle soup
pub struct Soup {
    pub tris: Vec<(usize, Tri)>,
}
impl Soup {
    pub fn of<T: Scalar, const N: usize>(m: &Mesh<T, N>) -> Soup {
        Soup { tris: live_faces(m).into_iter().map(|f| (f, face_tri(m, f))).collect() }
    }
    pub fn dir(&self, a: usize, b: usize) -> Option<(usize, usize)> {
        for (f, t) in &self.tris {
            for i in 0..3 {
                if t[i] == a && t[(i + 1) % 3] == b {
                    return Some((*f, t[(i + 2) % 3]));
                }
            }
        }
        None
    }
    pub fn edge(&self, a: usize, b: usize) -> bool {
        self.dir(a, b).is_some() || self.dir(b, a).is_some()
    }
    pub fn neighbors(&self, v: usize) -> BTreeSet<usize> {
        self.tris.iter().filter(|(_, t)| t.contains(&v)).flat_map(|(_, t)| *t).filter(|x| *x != v).collect()
    }
    pub fn faces_of(&self, v: usize) -> BTreeSet<usize> {
        self.tris.iter().filter(|(_, t)| t.contains(&v)).map(|x| x.0).collect()
    }
    pub fn border(&self, v: usize) -> bool {
        self.neighbors(v).iter().any(|&u| self.dir(v, u).is_some() != self.dir(u, v).is_some())
    }
    /// number of separate fans around a vertex
    pub fn fans(&self, v: usize) -> usize {
        let fs: Vec<Tri> = self.tris.iter().filter(|(_, t)| t.contains(&v)).map(|x| x.1).collect();
        let mut comp: Vec<usize> = (0..fs.len()).collect();
        fn root(c: &Vec<usize>, mut i: usize) -> usize {
            while c[i] != i {
                i = c[i];
            }
            i
        }
        for i in 0..fs.len() {
            for j in i + 1..fs.len() {
                if fs[i].iter().any(|x| *x != v && fs[j].contains(x)) {
                    let (a, b) = (root(&comp, i), root(&comp, j));
                    comp[a] = b;
                }
            }
        }
        (0..fs.len()).filter(|&i| root(&comp, i) == i).count()
    }
    pub fn manifold_vertices(&self) -> bool {
        let vs: BTreeSet<usize> = self.tris.iter().flat_map(|(_, t)| *t).collect();
        vs.iter().all(|&v| self.fans(v) <= 1)
    }
    /// vertices - edges + faces
    pub fn euler(&self) -> i64 {
        let vs: BTreeSet<usize> = self.tris.iter().flat_map(|(_, t)| *t).collect();
        let es: BTreeSet<(usize, usize)> = self.tris.iter().flat_map(|(_, t)| dirs(*t)).map(|(a, b)| (a.min(b), a.max(b))).collect();
        vs.len() as i64 - es.len() as i64 + self.tris.len() as i64
    }
    pub fn closed(&self) -> bool {
        self.tris.iter().flat_map(|(_, t)| dirs(*t)).all(|(a, b)| self.dir(b, a).is_some())
    }
}

/// small surfaces used as starting points: (name, number of vertices, consistently oriented triangles)
pub fn surfaces() -> Vec<(&'static str, usize, Vec<Tri>)> {
    let octa = vec![[0, 2, 4], [2, 1, 4], [1, 3, 4], [3, 0, 4], [2, 0, 5], [1, 2, 5], [3, 1, 5], [0, 3, 5]];
    let tetra = vec![[0, 2, 1], [0, 1, 3], [1, 2, 3], [2, 0, 3]];
    let fan: Vec<Tri> = (0..6).map(|i| [6, i, (i + 1) % 6]).collect();
    let open_fan: Vec<Tri> = (0..4).map(|i| [5, i, i + 1]).collect();
    let strip: Vec<Tri> = (0..6).map(|i| if i % 2 == 0 { [i, i + 1, i + 2] } else { [i + 1, i, i + 2] }).collect();
    let bip: Vec<Tri> = (0..5).flat_map(|i| [[i, (i + 1) % 5, 5], [(i + 1) % 5, i, 6]]).collect();
    let bip3: Vec<Tri> = (0..3).flat_map(|i| [[i, (i + 1) % 3, 3], [(i + 1) % 3, i, 4]]).collect();
    // a ring of eight triangles around a hole, and the same ring twisted inside out at no point
    let ring: Vec<Tri> = (0..4).flat_map(|i| [[i, (i + 1) % 4, 4 + i], [(i + 1) % 4, 4 + (i + 1) % 4, 4 + i]]).collect();
    // two sheets that touch in one vertex
    let pinch = vec![[0, 1, 2], [0, 2, 3], [0, 4, 5], [0, 5, 6]];
    // the seven-vertex torus
    let torus: Vec<Tri> = (0..7).flat_map(|i| [[i, (i + 1) % 7, (i + 3) % 7], [i, (i + 3) % 7, (i + 2) % 7]]).collect();
    let cube = vec![
        [0, 2, 1], [0, 3, 2], [4, 5, 6], [4, 6, 7], [0, 1, 5], [0, 5, 4],
        [1, 2, 6], [1, 6, 5], [2, 3, 7], [2, 7, 6], [3, 0, 4], [3, 4, 7],
    ];
    let open_box: Vec<Tri> = cube[..10].to_vec();
    vec![
        ("tetrahedron", 4, tetra),
        ("triangular bipyramid", 5, bip3),
        ("octahedron", 6, octa),
        ("pentagonal bipyramid", 7, bip),
        ("closed fan", 7, fan),
        ("open fan", 6, open_fan),
        ("strip", 8, strip),
        ("ring", 8, ring),
        ("pinched sheets", 7, pinch),
        ("torus", 7, torus),
        ("cube", 8, cube),
        ("open box", 8, open_box),
    ]
}

/// families of surfaces of every size up to a bound: vertices of every degree, borders of every length
pub fn sized(max: usize) -> Vec<(String, usize, Vec<Tri>)> {
    let mut v = vec![];
    for k in 3..=max {
        v.push((format!("closed fan of {k}"), k + 1, (0..k).map(|i| [k, i, (i + 1) % k]).collect()));
        v.push((format!("open fan of {k}"), k + 2, (0..k).map(|i| [k + 1, i, i + 1]).collect()));
        v.push((format!("strip of {k}"), k + 2, (0..k).map(|i| if i % 2 == 0 { [i, i + 1, i + 2] } else { [i + 1, i, i + 2] }).collect()));
        v.push((format!("bipyramid of {k}"), k + 2, (0..k).flat_map(|i| [[i, (i + 1) % k, k], [(i + 1) % k, i, k + 1]]).collect()));
        v.push((format!("ring of {k}"), 2 * k, (0..k).flat_map(|i| [[i, (i + 1) % k, k + i], [(i + 1) % k, k + (i + 1) % k, k + i]]).collect()));
    }
    v
}

/// every set of oriented triangles on n vertices in which no directed edge is used twice
pub fn all_soups(n: usize, max: usize) -> Vec<Vec<Tri>> {
    let mut ts = vec![];
    for a in 0..n {
        for b in a + 1..n {
            for c in b + 1..n {
                ts.push([a, b, c]);
                ts.push([a, c, b]);
            }
        }
    }
    fn go(ts: &[Tri], i: usize, cur: &mut Vec<Tri>, max: usize, out: &mut Vec<Vec<Tri>>) {
        if i == ts.len() {
            out.push(cur.clone());
            return;
        }
        go(ts, i + 1, cur, max, out);
        if cur.len() < max && dirs(ts[i]).iter().all(|d| cur.iter().all(|u| !dirs(*u).contains(d))) {
            cur.push(ts[i]);
            go(ts, i + 1, cur, max, out);
            cur.pop();
        }
    }
    let mut out = vec![];
    go(&ts, 0, &mut vec![], max, &mut out);
    out
}
