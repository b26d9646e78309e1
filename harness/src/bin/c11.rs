//! C11: adding and removing triangles keeps the half-edge structure consistent and the mesh
//! holds exactly the triangles a plain set would hold, through every history.
use cgar::geometry::point::Point;
use cgar::mesh::basic_types::Mesh;
use cgar::numeric::cgar_f64::CgarF64;
use mc::engine::*;
use mc::ensure;
use mc::mesh::*;
use std::collections::BTreeMap;

type M = Mesh<CgarF64, 3>;

fn blank(n: usize) -> M {
    let mut m = M::new();
    for i in 0..n {
        let x = i as f64;
        m.add_vertex(Point { coords: [CgarF64(x), CgarF64(x * x), CgarF64(x * x * x)] });
    }
    m
}

/// the reference: face index -> oriented triangle
#[derive(Clone, Default, Debug)]
struct Model {
    live: BTreeMap<usize, Tri>,
    slots: usize,
}
impl Model {
    fn free(&self, t: Tri) -> bool {
        dirs(t).iter().all(|d| self.live.values().all(|u| !dirs(*u).contains(d)))
    }
    /// orientation a request ends up with
    fn accept(&self, t: Tri) -> Option<Tri> {
        if t[0] == t[1] || t[1] == t[2] || t[0] == t[2] {
            None
        } else if self.free(t) {
            Some(canon(t))
        } else if self.free(flip(t)) {
            Some(canon(flip(t)))
        } else {
            None
        }
    }
}

fn check(m: &M, model: &Model, c: &mut Ctx, w: &dyn Fn() -> String) -> Res {
    c.state(&model.live);
    if let Err(e) = invariants(m) {
        return fail("structure", format!("{}: {e}", w()));
    }
    for f in 0..m.faces.len() {
        let want = model.live.get(&f);
        ensure!(m.faces[f].removed == want.is_none(), "liveness", "{}: face {f} removed={} but the model says {want:?}", w(), m.faces[f].removed);
        if let Some(t) = want {
            ensure!(face_tri(m, f) == *t, "triangle", "{}: face {f} is {:?}, should be {t:?}", w(), face_tri(m, f));
        }
    }
    ensure!(model.live.keys().all(|f| *f < m.faces.len()), "lost", "{}: a face is missing", w());
    Ok(())
}

fn add(m: &mut M, model: &mut Model, t: Tri, deferred: bool, w: &dyn Fn() -> String) -> Res {
    let want = model.accept(t);
    let before = m.faces.len();
    let got = if deferred {
        let v = m.add_triangles_deferred(&[(t[0], t[1], t[2])]);
        ensure!(v.len() <= 1, "deferred-count", "{}: one triangle gave {} faces", w(), v.len());
        v.first().copied().unwrap_or(usize::MAX)
    } else {
        m.add_triangle(t[0], t[1], t[2])
    };
    match want {
        Some(o) => {
            ensure!(got != usize::MAX, "refused", "{}: triangle {t:?} was refused", w());
            ensure!(got >= before && got < m.faces.len(), "index", "{}: returned face {got}", w());
            model.live.insert(got, o);
            model.slots = m.faces.len();
        }
        None => ensure!(got == usize::MAX, "accepted", "{}: triangle {t:?} was accepted as face {got}", w()),
    }
    Ok(())
}

fn remove(m: &mut M, model: &mut Model, fs: &[usize], deferred: bool) {
    if deferred {
        let (s, v) = m.remove_triangles_deferred(fs);
        m.weld_border_components_from(&s);
        m.fix_vertices_outgoing_for(&v);
    } else {
        for f in fs {
            m.remove_triangle(*f);
        }
    }
    for f in fs {
        model.live.remove(f);
    }
}

/// rebuilding all border loops from scratch must reproduce a consistent structure
fn rebuilt(m: &M, model: &Model, c: &mut Ctx, w: &dyn Fn() -> String) -> Res {
    let mut k = m.clone();
    k.build_boundary_loops();
    c.call(1);
    check(&k, model, c, &|| format!("{} then rebuilding the border loops", w()))?;
    for h in 0..k.half_edges.len() {
        if !k.half_edges[h].removed {
            ensure!(k.half_edges[h].next == m.half_edges[h].next, "border-loops", "{}: rebuilding the border loops moved the successor of half-edge {h}", w());
        }
    }
    Ok(())
}

#[derive(Clone, Copy, Debug)]
enum Op {
    Add(Tri),
    Remove(usize),
}

/// ops available in a state: every oriented triangle, every live face (plus a dead one)
fn ops(model: &Model, tris: &[Tri]) -> Vec<Op> {
    let mut v: Vec<Op> = tris.iter().map(|t| Op::Add(*t)).collect();
    v.extend(model.live.keys().map(|f| Op::Remove(*f)));
    if let Some(d) = (0..model.slots).find(|f| !model.live.contains_key(f)) {
        v.push(Op::Remove(d));
    }
    v
}

fn walk(m: &M, model: &Model, tris: &[Tri], trace: &mut Vec<Op>, left: usize, mode: usize, c: &mut Ctx) -> Res {
    if left == 0 {
        return Ok(());
    }
    c.tick();
    for op in ops(model, tris) {
        trace.push(op);
        let tr = trace.clone();
        let w = move || format!("history {tr:?}{}", if mode == 1 { " (deferred)" } else { "" });
        let (mut m2, mut mo) = (m.clone(), model.clone());
        c.call(1);
        match op {
            Op::Add(t) => add(&mut m2, &mut mo, t, mode == 1, &w)?,
            Op::Remove(f) => remove(&mut m2, &mut mo, &[f], mode == 1),
        }
        check(&m2, &mo, c, &w)?;
        rebuilt(&m2, &mo, c, &w)?;
        walk(&m2, &mo, tris, trace, left - 1, mode, c)?;
        trace.pop();
    }
    Ok(())
}

fn all_tris(n: usize) -> Vec<Tri> {
    let mut v = vec![];
    for a in 0..n {
        for b in 0..n {
            for d in 0..n {
                if a < b && a < d && b != d {
                    v.push([a, b, d]);
                }
            }
        }
    }
    v
}

/// every history over n vertices; the first `fixed` operations are the case index
fn histories(n: usize, depth: usize, mode: usize) -> Family {
    let mut tris = all_tris(n);
    if n <= 4 {
        tris.push([0, 0, 1]); // repeated vertices must be refused
        tris.push([0, 1, 1]);
        tris.push([1, 0, 1]);
    }
    let k = tris.len();
    family(format!("histories-{n}v{}", if mode == 1 { "-deferred" } else { "" }), (k * k) as u64, move |i, c| {
        let mut d = Dec(i);
        let (a, b) = (tris[d.take(k)], tris[d.take(k)]);
        // vertex names are interchangeable for the first triangle
        if n >= 5 && a != tris[0] {
            return Ok(());
        }
        let mut m = blank(n);
        let mut mo = Model::default();
        let mut trace = vec![Op::Add(a)];
        add(&mut m, &mut mo, a, mode == 1, &|| format!("first {a:?}"))?;
        check(&m, &mo, c, &|| format!("first {a:?}"))?;
        trace.push(Op::Add(b));
        add(&mut m, &mut mo, b, mode == 1, &|| format!("{a:?} {b:?}"))?;
        check(&m, &mo, c, &|| format!("{a:?} {b:?}"))?;
        rebuilt(&m, &mo, c, &|| format!("{a:?} {b:?}"))?;
        c.call(2);
        c.sample(|| format!("all histories of {} operations starting with {a:?}, {b:?}", depth));
        walk(&m, &mo, &tris, &mut trace, depth - 2, mode, c)
    })
}

fn shapes() -> Vec<(&'static str, usize, Vec<Tri>)> {
    let octa = vec![[0, 2, 4], [2, 1, 4], [1, 3, 4], [3, 0, 4], [2, 0, 5], [1, 2, 5], [3, 1, 5], [0, 3, 5]];
    let fan: Vec<Tri> = (0..6).map(|i| [6, i, (i + 1) % 6]).collect();
    let strip: Vec<Tri> = (0..6).map(|i| if i % 2 == 0 { [i, i + 1, i + 2] } else { [i + 1, i, i + 2] }).collect();
    let two_fans = vec![[0, 1, 2], [0, 2, 3], [0, 4, 5], [0, 5, 6], [0, 6, 1]];
    // the seven-vertex torus
    let torus: Vec<Tri> = (0..7).flat_map(|i| [[i, (i + 1) % 7, (i + 3) % 7], [i, (i + 3) % 7, (i + 2) % 7]]).collect();
    let cube = vec![
        [0, 2, 1], [0, 3, 2], [4, 5, 6], [4, 6, 7], [0, 1, 5], [0, 5, 4],
        [1, 2, 6], [1, 6, 5], [2, 3, 7], [2, 7, 6], [3, 0, 4], [3, 4, 7],
    ];
    vec![("octahedron", 6, octa), ("closed fan", 7, fan), ("strip", 8, strip), ("two fans", 7, two_fans), ("torus", 7, torus), ("cube", 8, cube)]
}

fn build(n: usize, ts: &[Tri], batch: bool) -> Result<(M, Model), Fail> {
    let mut m = blank(n);
    let mut mo = Model::default();
    if batch {
        let want: Vec<Tri> = ts.iter().map(|t| canon(*t)).collect();
        let v = m.add_triangles_deferred(&ts.iter().map(|t| (t[0], t[1], t[2])).collect::<Vec<_>>());
        ensure!(v.len() == ts.len(), "batch-count", "{ts:?}: {} faces for {} triangles", v.len(), ts.len());
        for (f, t) in v.iter().zip(want) {
            mo.live.insert(*f, t);
        }
        mo.slots = m.faces.len();
    } else {
        for t in ts {
            add(&mut m, &mut mo, *t, false, &|| format!("building {ts:?}"))?;
        }
    }
    Ok((m, mo))
}

/// every subset of every shape: built triangle by triangle and in one batch, the rest removed one
/// by one and in one batch, and filled up again
fn subsets(max: usize) -> Family {
    let sh = shapes();
    let off: Vec<u64> = sh.iter().scan(0, |a, s| { let r = *a; *a += if s.2.len() <= max { 1u64 << s.2.len() } else { 0 }; Some(r) }).collect();
    let tot = sh.iter().map(|s| if s.2.len() <= max { 1u64 << s.2.len() } else { 0 }).sum();
    family("subsets", tot, move |i, c| {
        let k = (0..sh.len()).rev().find(|&k| off[k] <= i && sh[k].2.len() <= max).unwrap();
        let mask = i - off[k];
        let (name, n, ts) = &sh[k];
        let part: Vec<Tri> = (0..ts.len()).filter(|j| mask >> j & 1 == 1).map(|j| ts[j]).collect();
        let w = || format!("{name}, subset {mask:b}");
        for batch in [false, true] {
            let (m, mo) = build(*n, &part, batch)?;
            c.call(part.len() as u64);
            check(&m, &mo, c, &w)?;
            rebuilt(&m, &mo, c, &w)?;
        }
        let out: Vec<usize> = (0..ts.len()).filter(|j| mask >> j & 1 == 0).collect();
        for batch in [false, true] {
            let (mut m, mut mo) = build(*n, ts, false)?;
            remove(&mut m, &mut mo, &out, batch);
            c.call(out.len() as u64 + 1);
            let w2 = || format!("{} kept of the whole, batch removal {batch}", w());
            check(&m, &mo, c, &w2)?;
            rebuilt(&m, &mo, c, &w2)?;
            if batch {
                // lists naming removed, repeated and unknown faces take out the others all the same
                for cut in 0..out.len().min(3) {
                    let (mut m, mut mo) = build(*n, ts, false)?;
                    remove(&mut m, &mut mo, &out[..cut], false);
                    let list: Vec<usize> = out.iter().flat_map(|f| [*f, *f, ts.len() + *f]).collect();
                    remove(&mut m, &mut mo, &list, true);
                    c.call(list.len() as u64 + 1);
                    let w3 = || format!("{} kept of the whole, {cut} removed before, list {list:?}", w());
                    check(&m, &mo, c, &w3)?;
                    rebuilt(&m, &mo, c, &w3)?;
                }
            }
            // put the removed triangles back
            for j in out.iter().rev() {
                add(&mut m, &mut mo, ts[*j], batch, &w2)?;
                check(&m, &mo, c, &w2)?;
            }
        }
        Ok(())
    })
}

/// every order of removing all faces of a shape, every order of building it
fn orders() -> Family {
    let sh: Vec<_> = shapes().into_iter().filter(|s| s.2.len() <= 8).collect();
    let k = sh.len();
    family("orders", (k * 56) as u64, move |i, c| {
        let mut d = Dec(i);
        let (name, n, ts) = &sh[d.take(k)];
        let t = ts.len();
        let (a, b) = (d.take(8), d.take(7));
        if a >= t || b >= t - 1 {
            return Ok(());
        }
        let b = if b >= a { b + 1 } else { b };
        let (full, fmo) = build(*n, ts, false)?;
        let start = blank(*n);
        fn go(m: &M, mo: &Model, e: &M, emo: &Model, ts: &[Tri], used: u64, seq: &mut Vec<usize>, c: &mut Ctx, name: &str) -> Res {
            c.tick();
            if seq.len() == ts.len() {
                return Ok(());
            }
            for j in 0..ts.len() {
                if used >> j & 1 == 0 {
                    step(m, mo, e, emo, ts, used, seq, j, c, name)?;
                }
            }
            Ok(())
        }
        fn step(m: &M, mo: &Model, e: &M, emo: &Model, ts: &[Tri], used: u64, seq: &mut Vec<usize>, j: usize, c: &mut Ctx, name: &str) -> Res {
            seq.push(j);
            let s = seq.clone();
            let w = move || format!("{name}, order {s:?}");
            let (mut m2, mut mo2) = (m.clone(), mo.clone());
            remove(&mut m2, &mut mo2, &[j], false);
            check(&m2, &mo2, c, &w)?;
            let (mut e2, mut emo2) = (e.clone(), emo.clone());
            add(&mut e2, &mut emo2, ts[j], false, &w)?;
            check(&e2, &emo2, c, &w)?;
            c.call(2);
            go(&m2, &mo2, &e2, &emo2, ts, used | 1 << j, seq, c, name)?;
            seq.pop();
            Ok(())
        }
        // first two choices come from the case index
        let mut seq = vec![a];
        let (mut m, mut mo) = (full, fmo);
        remove(&mut m, &mut mo, &[a], false);
        check(&m, &mo, c, &|| format!("{name}: removing {a} first"))?;
        let (mut e, mut emo) = (start, Model::default());
        add(&mut e, &mut emo, ts[a], false, &|| format!("{name}: adding {a} first"))?;
        step(&m, &mo, &e, &emo, ts, 1 << a, &mut seq, b, c, name)
    })
}

/// surfaces of every size: built forwards, backwards and from both ends, emptied again in those orders,
/// one by one and every prefix in one batch
fn sizes(max: usize) -> Family {
    let all = sized(max);
    let k = all.len();
    family("sizes", (k * 9) as u64, move |i, c| {
        let mut d = Dec(i);
        let (p, q) = (d.take(3), d.take(3));
        let (name, n, ts) = &all[d.take(k)];
        let t = ts.len();
        let order = |o: usize| -> Vec<usize> {
            match o {
                0 => (0..t).collect(),
                1 => (0..t).rev().collect(),
                _ => (0..t).map(|j| if j % 2 == 0 { j / 2 } else { t - 1 - j / 2 }).collect(),
            }
        };
        let w = || format!("{name} built in order {p}, emptied in order {q}");
        let (mut m, mut mo) = (blank(*n), Model::default());
        for j in order(p) {
            add(&mut m, &mut mo, ts[j], false, &w)?;
            c.call(1);
            check(&m, &mo, c, &w)?;
        }
        rebuilt(&m, &mo, c, &w)?;
        let out: Vec<usize> = {
            let of: BTreeMap<Tri, usize> = mo.live.iter().map(|(f, t)| (*t, *f)).collect();
            order(q).into_iter().map(|j| of[&canon(ts[j])]).collect()
        };
        for e in 1..=t {
            let (mut b, mut bo) = (m.clone(), mo.clone());
            remove(&mut b, &mut bo, &out[..e], true);
            c.call(1);
            check(&b, &bo, c, &|| format!("{}, {e} in one batch", w()))?;
        }
        for f in &out {
            remove(&mut m, &mut mo, &[*f], false);
            c.call(1);
            check(&m, &mo, c, &w)?;
        }
        Ok(())
    })
}

fn main() {
    let th = thorough();
    run_check(
        "C11",
        Opts {
            rule: "every history of adding and removing triangles to the depth bound, every subset and every order of six surfaces; after each step the whole structure is compared with a plain set of oriented triangles".into(),
            assumptions: vec!["vertex names are interchangeable (first triangle fixed from five vertices on)".into()],
            ..Default::default()
        },
        vec![
            histories(4, if th { 7 } else { 6 }, 0),
            histories(4, if th { 6 } else { 5 }, 1),
            histories(5, if th { 6 } else { 5 }, 0),
            histories(5, if th { 6 } else { 5 }, 1),
            subsets(if th { 14 } else { 12 }),
            orders(),
            sizes(if th { 140 } else { 70 }),
        ],
    )
}
