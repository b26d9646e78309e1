//! C15: every neighbourhood query answers as a scan over the plain list of triangles would.
use mc::edits::*;
use mc::engine::*;
use mc::ensure;
use mc::mesh::*;
use std::collections::BTreeSet;

fn set(i: impl IntoIterator<Item = usize>) -> BTreeSet<usize> {
    i.into_iter().collect()
}

/// all queries in one state
fn ask(m: &M3, md: &Model, c: &mut Ctx, w: &dyn Fn() -> String) -> Res {
    let s = md.soup();
    let n = m.vertices.len();
    let nf = m.faces.len();
    const NONE: usize = usize::MAX;
    c.case();
    let he = |a: usize, b: usize| m.edge_map.get(&(a, b)).copied();
    let used: Vec<usize> = (0..n).filter(|v| !s.faces_of(*v).is_empty()).collect();
    let whole = s.manifold_vertices();

    // half-edges
    for (h, e) in m.half_edges.iter().enumerate() {
        if e.removed {
            continue;
        }
        c.call(4);
        let (a, b) = (m.half_edges[e.twin].vertex, e.vertex);
        ensure!(m.source(h) == a && m.target(h) == b, "ends", "{}: half-edge {h} runs {a}-{b}, source {} target {}", w(), m.source(h), m.target(h));
        ensure!(m.canonical_edge_indices(h) == Some((a.min(b), a.max(b))), "edge-key", "{}: half-edge {h} ({a}-{b}) has key {:?}", w(), m.canonical_edge_indices(h));
        let g = m.segment_from_half_edge(h);
        ensure!(g.a == m.vertices[a].position && g.b == m.vertices[b].position, "segment", "{}: segment of half-edge {h} has the wrong ends", w());
        if m.half_edges[h].face.is_some() || whole {
            let r = m.rot_ccw_around_vertex(h);
            ensure!(m.source(r) == a, "rotate", "{}: rotating half-edge {h} around {a} leaves it", w());
            if let Some((_, x)) = s.dir(a, b) {
                ensure!(m.target(r) == x, "rotate", "{}: the next edge after {a}-{b} counter-clockwise is {a}-{x}, not {a}-{}", w(), m.target(r));
            }
        }
    }

    // pairs of vertices
    for a in 0..n {
        for b in 0..n {
            c.call(5);
            let edge = a != b && s.edge(a, b);
            ensure!(m.are_vertices_connected(a, b) == edge, "connected", "{}: {a} and {b} connected: {}", w(), !edge);
            let h = m.half_edge_between(a, b);
            ensure!(h.is_some() == edge && h == he(a, b), "between", "{}: half-edge from {a} to {b} is {h:?}", w());
            if let Some(h) = h {
                ensure!(!m.half_edges[h].removed && m.target(h) == b && m.source(h) == a && m.half_edges[h].face == s.dir(a, b).map(|x| x.0), "between", "{}: half-edge {h} between {a} and {b} is not that edge", w());
            }
            ensure!(m.vertices_connection(a, b) == h.unwrap_or(NONE), "connection", "{}: connection {a} to {b} is {}", w(), m.vertices_connection(a, b));
            let both = m.edge_half_edges(a, b);
            ensure!(both == h.map(|h| (h, he(b, a).unwrap())), "both-halves", "{}: half-edges of {a}-{b} are {both:?}", w());
            if !whole {
                continue;
            }
            let p = m.ring_pair(a, b);
            ensure!(p.is_some() == edge, "pair", "{}: pair of rings of {a} and {b} exists: {}", w(), p.is_some());
            if let Some(p) = p {
                let (na, nb) = (s.neighbors(a), s.neighbors(b));
                let but = |x: &BTreeSet<usize>| -> BTreeSet<usize> { x.iter().copied().filter(|v| *v != a && *v != b).collect() };
                ensure!(p.opposite_a == s.dir(a, b).map(|x| x.1) && p.opposite_b == s.dir(b, a).map(|x| x.1), "opposite", "{}: opposite {a}-{b} lie {:?} and {:?}", w(), p.opposite_a, p.opposite_b);
                ensure!(set(p.common_neighbors.iter().copied()) == but(&na.intersection(&nb).copied().collect()), "common", "{}: common neighbours of {a} and {b}: {:?}", w(), p.common_neighbors);
                ensure!(set(p.union_neighbors.iter().copied()) == but(&na.union(&nb).copied().collect()), "union", "{}: neighbours of {a} or {b}: {:?}", w(), p.union_neighbors);
                let border = s.dir(a, b).is_none() || s.dir(b, a).is_none();
                ensure!(p.is_border_edge == border, "border-edge", "{}: {a}-{b} on the border: {}", w(), !border);
                ensure!(p.ring0.neighbors_ccw[p.idx_v1_in_ring0.unwrap()] == b && p.ring1.neighbors_ccw[p.idx_v0_in_ring1.unwrap()] == a, "pair-index", "{}: places of {a} and {b} in their rings", w());
            }
        }
    }

    // vertices
    if whole {
        for &v in &used {
            c.call(7);
            let (nb, fs) = (s.neighbors(v), s.faces_of(v));
            let out = m.outgoing_half_edges(v);
            ensure!(out.iter().all(|h| m.source(*h) == v) && out.len() == nb.len() && set(out.iter().map(|h| m.target(*h))) == nb, "outgoing", "{}: half-edges out of {v}: {out:?}, neighbours {nb:?}", w());
            let ring = m.one_ring_neighbors(v);
            ensure!(ring.len() == nb.len() && set(ring.iter().copied()) == nb, "one-ring", "{}: neighbours of {v}: {ring:?}, should be {nb:?}", w());
            ensure!(m.is_boundary_vertex(v) == s.border(v), "on-border", "{}: {v} on the border: {}", w(), !s.border(v));
            let f = m.faces_around_vertex(v);
            ensure!(f.len() == fs.len() && set(f.iter().copied()) == fs, "around-vertex", "{}: faces around {v}: {f:?}, should be {fs:?}", w());
            let f = m.incident_faces(v);
            ensure!(set(f.iter().copied()) == fs, "incident", "{}: faces at {v}: {f:?}, should be {fs:?}", w());
            for f in 0..nf {
                ensure!(m.vertex_touches_face(v, f) == fs.contains(&f), "touches", "{}: {v} touches face {f}: {}", w(), !fs.contains(&f));
            }
            let r = m.vertex_ring_ccw(v);
            let k = r.neighbors_ccw.len();
            ensure!(r.center == v && k == nb.len() && r.halfedges_ccw.len() == k && r.faces_ccw.len() == k && set(r.neighbors_ccw.iter().copied()) == nb, "ring", "{}: ring of {v}: {r:?}, neighbours {nb:?}", w());
            ensure!(r.is_border == s.border(v), "ring-border", "{}: ring of {v} open: {}", w(), r.is_border);
            for i in 0..k {
                let (x, y) = (r.neighbors_ccw[i], r.neighbors_ccw[(i + 1) % k]);
                let d = s.dir(v, x);
                ensure!(r.halfedges_ccw[i] == he(v, x).unwrap() && r.faces_ccw[i] == d.map(|z| z.0), "ring-entry", "{}: entry {i} of the ring of {v}: {r:?}", w());
                if let Some((_, z)) = d {
                    ensure!(y == z, "ring-order", "{}: around {v}, {z} follows {x} counter-clockwise, not {y}", w());
                }
            }
        }
        c.call(1);
        let b = m.boundary_vertices();
        let want: Vec<usize> = used.iter().copied().filter(|v| s.border(*v)).collect();
        let mut got = b.clone();
        got.sort();
        ensure!(got == want, "border-vertices", "{}: border vertices {b:?}, should be {want:?}", w());
        c.hit(if want.is_empty() { "closed" } else { "open" });
        if used.len() < n {
            c.hit("with unused vertices");
        }
        for &x in &used {
            for &y in &used {
                for &z in &used {
                    if x < y && x != z && y != z {
                        c.call(1);
                        let f = m.face_from_vertices(x, y, z);
                        let all: Vec<usize> = s.tris.iter().filter(|(_, t)| t.contains(&x) && t.contains(&y) && t.contains(&z)).map(|t| t.0).collect();
                        ensure!(if all.is_empty() { f == NONE } else { all.contains(&f) }, "face-by-corners", "{}: face on {x},{y},{z} is {f}, should be one of {all:?}", w());
                    }
                }
            }
        }
    } else {
        c.hit("pinched");
    }

    // faces
    let graph = m.build_face_adjacency_graph();
    for f in 0..nf {
        c.call(1);
        let near: Vec<usize> = match md.live.get(&f) {
            Some(t) => dirs(*t).into_iter().filter_map(|(a, b)| s.dir(b, a)).map(|x| x.0).collect(),
            None => vec![],
        };
        let sorted = |v: &[usize]| {
            let mut v = v.to_vec();
            v.sort();
            v
        };
        let g = graph.get(&f).cloned().unwrap_or_default();
        ensure!(sorted(&g) == sorted(&near), "graph", "{}: face {f} is next to {g:?} in the graph, should be {near:?}", w());
        let Some(t) = md.live.get(&f) else {
            c.hit("removed face");
            ensure!(m.adjacent_faces(f).next().is_none(), "adjacent-removed", "{}: the removed face {f} has neighbours", w());
            continue;
        };
        c.call(6);
        let near = sorted(&near);
        ensure!(canon(m.face_vertices(f)) == *t, "corners", "{}: corners of face {f}: {:?}, should be {t:?}", w(), m.face_vertices(f));
        let hs = m.face_half_edges(f);
        let fv = m.face_vertices(f);
        let (e0, e1, e2) = m.face_edges(f);
        let it = m.get_face_half_edges_iterative(f);
        for l in [&hs[..], &[e0, e1, e2][..], it.as_deref().unwrap_or(&[])] {
            ensure!(l.len() == 3 && (0..3).all(|i| he(fv[i], fv[(i + 1) % 3]) == Some(l[i])), "edges-of-face", "{}: half-edges of face {f} {fv:?}: {l:?}", w());
        }
        let a: Vec<usize> = m.adjacent_faces(f).collect();
        ensure!(sorted(&a) == near, "adjacent", "{}: faces next to {f}: {a:?}, should be {near:?}", w());
        let a = m.faces_around_face(f);
        let got: Vec<usize> = sorted(&a).into_iter().filter(|x| *x != NONE).collect();
        ensure!(got == near, "around-face", "{}: faces around {f}: {a:?}, should be {near:?}", w());
        for g in md.live.keys() {
            if *g != f {
                c.call(1);
                ensure!(m.are_faces_adjacent(f, *g) == near.contains(g), "faces-adjacent", "{}: faces {f} and {g} adjacent: {}", w(), !near.contains(g));
            }
        }
    }
    if let Err(e) = guarded(|| {
        m.validate_connectivity();
        m.validate_half_edges();
    }) {
        return fail("validate", format!("{}: the sound mesh fails its own validation: {e}", w()));
    }
    Ok(())
}

fn walk(m: &M3, md: &Model, trace: &mut Vec<Op>, left: usize, c: &mut Ctx, name: &dyn Fn() -> String) -> Res {
    c.tick();
    ask(m, md, c, &|| format!("{}: {trace:?}", name()))?;
    if left == 0 {
        return Ok(());
    }
    for op in md.ops() {
        trace.push(op);
        let (mut k, mut kd) = (m.clone(), md.clone());
        c.call(1);
        if step(&mut k, &mut kd, op, &|| format!("{}: {trace:?}", name()))? {
            walk(&k, &kd, trace, left - 1, c, name)?;
        }
        trace.pop();
    }
    Ok(())
}

fn soups(n: usize, max: usize, depth: usize) -> Family {
    let all = all_soups(n, max);
    family(format!("all-{n}-vertex-meshes"), all.len() as u64, move |i, c| {
        let ts = &all[i as usize];
        let (m, md) = start(n, ts);
        c.sample(|| format!("all queries on {ts:?} and after every history of {depth} edits"));
        walk(&m, &md, &mut vec![], depth, c, &|| format!("{ts:?}"))
    })
}

fn surface(name: &'static str, n: usize, ts: Vec<Tri>, depth: usize) -> Family {
    let (m, md) = start(n, &ts);
    let ops = md.ops();
    family(name.replace(' ', "-"), 1 + ops.len() as u64, move |i, c| {
        if i == 0 {
            return ask(&m, &md, c, &|| name.to_string());
        }
        let op = ops[i as usize - 1];
        c.sample(|| format!("{name}: all queries after every history of {depth} edits that begins with {op:?}"));
        let (mut k, mut kd) = (m.clone(), md.clone());
        c.call(1);
        if step(&mut k, &mut kd, op, &|| format!("{name}: {op:?}"))? {
            walk(&k, &kd, &mut vec![op], depth - 1, c, &|| name.to_string())?;
        }
        Ok(())
    })
}

/// surfaces of every size, and after every single edit
fn sizes(max: usize, edited: usize) -> Family {
    let all = sized(max);
    family("sizes", all.len() as u64, move |i, c| {
        let (name, n, ts) = &all[i as usize];
        let (m, md) = start(*n, ts);
        walk(&m, &md, &mut vec![], (*n <= edited) as usize, c, &|| name.clone())
    })
}

fn main() {
    let th = thorough() as usize;
    let mut f = vec![soups(4, 20, 2), soups(5, 20, 1), soups(6, 7 + th, 0)];
    f.push(surface("triangle", 3, vec![[0, 1, 2]], 3 + th));
    f.push(surface("square", 4, vec![[0, 1, 2], [0, 2, 3]], 3));
    for (name, n, ts) in surfaces() {
        let d = if ts.len() <= 4 { 2 + th } else { 2 };
        f.push(surface(name, n, ts, d));
    }
    f.push(sizes(40 + 30 * th, 14));
    run_check(
        "C15",
        Opts {
            rule: "every vertex, pair, triple, half-edge and face asked about in every mesh on 4 to 6 vertices and on fourteen named surfaces, also after every history of edits to the depth bound".into(),
            assumptions: vec!["vertices of a pinched surface are not asked for their ring".into()],
            ..Default::default()
        },
        f,
    )
}
