//! C13: flipping an edge swaps exactly the diagonal of its two triangles, or refuses and changes
//! nothing; through every history of flips.
use cgar::geometry::point::Point;
use cgar::mesh::basic_types::Mesh;
use cgar::numeric::cgar_f64::CgarF64;
use mc::engine::*;
use mc::ensure;
use mc::geo::*;
use mc::mesh::*;
use mc::per_scalar;
use std::collections::{BTreeSet, VecDeque};

type M2 = Mesh<CgarF64, 2>;
type M3 = Mesh<CgarF64, 3>;

/// no three of these are collinear
fn blank3(n: usize) -> M3 {
    let mut m = M3::new();
    for i in 0..n {
        let x = i as f64;
        m.add_vertex(Point { coords: [CgarF64(x), CgarF64(x * x), CgarF64(x * x * x)] });
    }
    m
}
fn blank2(n: usize) -> M2 {
    let mut m = M2::new();
    for i in 0..n {
        let x = i as f64;
        m.add_vertex(Point { coords: [CgarF64(x), CgarF64(x * x)] });
    }
    m
}

/// the flip of a-b in a plain list of triangles; None when it must be refused
fn model_flip(s: &[Tri], a: usize, b: usize, degenerate: &dyn Fn(Tri) -> bool) -> Option<Vec<Tri>> {
    let over = |a: usize, b: usize| s.iter().flat_map(|t| (0..3).map(move |i| (t[i], t[(i + 1) % 3], t[(i + 2) % 3]))).find(|x| x.0 == a && x.1 == b).map(|x| x.2);
    let c = over(a, b)?;
    let d = over(b, a)?;
    if c == d || over(c, d).is_some() || over(d, c).is_some() {
        return None;
    }
    let (t0, t1) = (canon([a, d, c]), canon([b, c, d]));
    if degenerate(t0) || degenerate(t1) {
        return None;
    }
    let mut out: Vec<Tri> = s.iter().copied().filter(|t| *t != canon([a, b, c]) && *t != canon([b, a, d])).collect();
    out.push(t0);
    out.push(t1);
    out.sort();
    Some(out)
}

fn handle<T: cgar::numeric::scalar::Scalar, const N: usize>(m: &Mesh<T, N>) -> (usize, usize, usize) {
    (m.vertices.len(), m.half_edges.len(), m.faces.len())
}

/// compare one flip with the model; Some(new soup) when it was done
macro_rules! flip_once {
    ($m:expr, $s:expr, $a:expr, $b:expr, $deg:expr, $c:expr, $w:expr) => {{
        let (a, b): (usize, usize) = ($a, $b);
        let h = match $m.edge_map.get(&(a, b)) {
            Some(h) => *h,
            None => return fail("edge-lookup", format!("{}: edge {a}-{b} is not in the lookup", $w())),
        };
        let size = handle(&$m);
        let want = model_flip(&$s, a, b, $deg);
        let r = $m.flip_edge(h);
        $c.call(1);
        if let Err(e) = invariants(&$m) {
            return fail("structure", format!("{}: {e}", $w()));
        }
        ensure!(handle(&$m) == size, "size", "{}: the mesh changed size", $w());
        match &want {
            Some(n) => {
                ensure!(r.is_ok(), "refused", "{}: flip of {a}-{b} was refused: {:?}", $w(), r);
                ensure!(soup(&$m) == *n, "triangles", "{}: flip of {a}-{b} gives {:?}, should be {n:?}", $w(), soup(&$m));
                $c.hit("flipped");
            }
            None => {
                ensure!(r.is_err(), "accepted", "{}: flip of {a}-{b} was accepted", $w());
                ensure!(soup(&$m) == $s, "changed", "{}: a refused flip changed the mesh to {:?}", $w(), soup(&$m));
                $c.hit("refused");
            }
        }
        want
    }};
}

fn edges(s: &[Tri]) -> Vec<(usize, usize)> {
    let e: BTreeSet<(usize, usize)> = s.iter().flat_map(|t| dirs(*t)).flat_map(|(a, b)| [(a, b), (b, a)]).collect();
    e.into_iter().collect()
}

fn walk(m: &M3, s: &[Tri], trace: &mut Vec<(usize, usize)>, left: usize, c: &mut Ctx, name: &dyn Fn() -> String) -> Res {
    if left == 0 {
        return Ok(());
    }
    c.tick();
    for (a, b) in edges(s) {
        trace.push((a, b));
        let mut k = m.clone();
        let s = s.to_vec();
        let n = flip_once!(k, s, a, b, &|_| false, c, || format!("{} flips {trace:?}", name()));
        c.state(n.as_ref().unwrap_or(&s));
        walk(&k, n.as_ref().unwrap_or(&s), trace, left - 1, c, name)?;
        trace.pop();
    }
    Ok(())
}

/// handles that name no edge
fn bad_handles(m: &M3, s: &[Tri], c: &mut Ctx) -> Res {
    let dead: Vec<usize> = (0..m.half_edges.len()).filter(|h| m.half_edges[*h].removed).collect();
    for h in dead.into_iter().chain([m.half_edges.len(), usize::MAX]) {
        let mut k = m.clone();
        c.call(1);
        ensure!(k.flip_edge(h).is_err(), "bad-handle", "flipping half-edge {h}, which is not there, was accepted on {s:?}");
        ensure!(soup(&k) == *s && invariants(&k).is_ok(), "bad-handle-changed", "flipping half-edge {h} changed {s:?}");
    }
    Ok(())
}

fn soups(n: usize, depth: usize) -> Family {
    let all = all_soups(n, 20);
    family(format!("all-{n}-vertex-meshes"), all.len() as u64, move |i, c| {
        let mut s: Vec<Tri> = all[i as usize].iter().map(|t| canon(*t)).collect();
        let mut m = blank3(n);
        for t in &s {
            ensure!(m.add_triangle(t[0], t[1], t[2]) != usize::MAX, "build", "cannot build {s:?}");
        }
        s.sort();
        c.sample(|| format!("all histories of {depth} flips on {s:?}"));
        bad_handles(&m, &s, c)?;
        walk(&m, &s, &mut vec![], depth, c, &|| format!("{s:?}"))
    })
}

fn named(depth: usize) -> Family {
    let all = surfaces();
    family("surfaces", all.len() as u64, move |i, c| {
        let (name, n, ts) = &all[i as usize];
        let mut m = blank3(*n);
        for t in ts {
            m.add_triangle(t[0], t[1], t[2]);
        }
        // leave some dead half-edges behind
        let mut k = m.clone();
        k.remove_triangle(0);
        let ks = soup(&k);
        bad_handles(&k, &ks, c)?;
        walk(&k, &ks, &mut vec![], depth, c, &|| format!("{name} without its first triangle"))?;
        let s = soup(&m);
        walk(&m, &s, &mut vec![], depth, c, &|| name.to_string())
    })
}

fn sizes(max: usize) -> Family {
    let all = sized(max);
    family("sizes", all.len() as u64, move |i, c| {
        let (name, n, ts) = &all[i as usize];
        let mut m = blank3(*n);
        for t in ts {
            m.add_triangle(t[0], t[1], t[2]);
        }
        walk(&m, &soup(&m), &mut vec![], if *n <= 14 { 2 } else { 1 }, c, &|| name.clone())
    })
}

/// everything reachable by flips, each state once
macro_rules! graph {
    ($fname:ident, $M:ty, $blank:ident) => {
        fn $fname(name: &'static str, starts: Vec<(String, usize, Vec<Tri>, Option<usize>)>) -> Family {
            family(format!("reachable-{name}"), starts.len() as u64, move |i, c| {
                let (name, n, ts, count) = &starts[i as usize];
                let mut m: $M = $blank(*n);
                for t in ts {
                    m.add_triangle(t[0], t[1], t[2]);
                }
                let s0 = soup(&m);
                let mut seen = BTreeSet::from([s0.clone()]);
                let mut q = VecDeque::from([(m, s0)]);
                while let Some((m, s)) = q.pop_front() {
                    c.tick();
                    for (a, b) in edges(&s) {
                        let mut k = m.clone();
                        if let Some(n) = flip_once!(k, s, a, b, &|_| false, c, || format!("{name}, state {s:?}")) {
                            if seen.insert(n.clone()) {
                                c.case();
                                q.push_back((k, n));
                            }
                        }
                    }
                }
                if let Some(k) = count {
                    ensure!(seen.len() == *k, "reach", "{name}: {} triangulations reached, there are {k}", seen.len());
                }
                c.sample(|| format!("{name}: {} triangulations reached", seen.len()));
                Ok(())
            })
        }
    };
}
graph!(graph2, M2, blank2);
graph!(graph3, M3, blank3);

fn polygons(max: usize) -> Vec<(String, usize, Vec<Tri>, Option<usize>)> {
    let catalan = [1, 1, 2, 5, 14, 42, 132, 429, 1430];
    (4..=max).map(|n| (format!("{n}-gon"), n, (1..n - 1).map(|i| [0, i, i + 1]).collect(), Some(catalan[n - 2]))).collect()
}

per_scalar! {
    use super::*;
    /// two triangles sharing an edge with all corners on a small lattice: a flip that would give a
    /// triangle without area is refused in space
    pub fn flat() -> Family {
        let frs: Vec<Frame> = if T::EXACT { frames() } else { vec![frames().remove(0), frames().remove(3)] };
        let k = frs.len();
        family(format!("{}-zero-area", T::NAME), 81 * k as u64, move |i, c| {
            let mut d = Dec(i);
            let fr = &frs[d.take(k)];
            let p: Vec<I3> = (0..9).map(|i| [i as i64 % 3, i as i64 / 3, (i as i64 % 3) * 2 - i as i64 / 3]).collect();
            let (a, b) = (d.take(9), d.take(9));
            for x in 0..9 {
                for y in 0..9 {
                    let ids: BTreeSet<usize> = [a, b, x, y].into();
                    if ids.len() != 4 {
                        continue;
                    }
                    let v = [p[a], p[b], p[x], p[y]];
                    let deg = |t: Tri| cross3(&sub(&v[t[1]], &v[t[0]]), &sub(&v[t[2]], &v[t[0]])) == [0, 0, 0];
                    if deg([0, 1, 2]) || deg([1, 0, 3]) {
                        continue;
                    }
                    let mut m: Mesh<T, 3> = Mesh::new();
                    for q in &v {
                        m.add_vertex(pt::<T, 3>(fr, q));
                    }
                    m.add_triangle(0, 1, 2);
                    m.add_triangle(1, 0, 3);
                    let s = soup(&m);
                    c.case();
                    for (e, g) in [(0, 1), (1, 0)] {
                        let mut k = m.clone();
                        flip_once!(k, s, e, g, &deg, c, || format!("{} {} corners {v:?}", T::NAME, fr.name));
                    }
                }
            }
            Ok(())
        })
    }
}

fn main() {
    let th = thorough() as usize;
    let sph: Vec<_> = surfaces().into_iter().filter(|s| ["tetrahedron", "triangular bipyramid", "octahedron"].contains(&s.0) || (s.0 == "pentagonal bipyramid") || s.0 == "torus" || s.0 == "closed fan" || s.0 == "ring" && th == 1).map(|s| (s.0.to_string(), s.1, s.2, None)).collect();
    run_check(
        "C13",
        Opts {
            rule: "every edge of every mesh on 4 and 5 vertices and of twelve surfaces, in all flip histories to the depth bound; every triangulation reachable by flips from polygons, spheres and a torus; flips on all lattice quadrilaterals in space".into(),
            assumptions: vec!["positions play a role only through zero-area triangles in space".into()],
            ..Default::default()
        },
        vec![
            soups(4, 4 + th),
            soups(5, 1 + th),
            named(3),
            sizes(130),
            graph2("polygons-2d", polygons(8 + th)),
            graph3("polygons-3d", polygons(7)),
            graph3("surfaces", sph),
            sf::flat(),
            sr::flat(),
            sl::flat(),
        ],
    )
}
