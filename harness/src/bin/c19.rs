//! C19: inside or outside, and what a ray hits first, agree with exact geometry.
use cgar::geometry::point::Point;
use cgar::geometry::spatial_element::SpatialElement;
use cgar::geometry::vector::Vector;
use cgar::mesh::basic_types::*;
use cgar::mesh::topology::{VertexRayResult, ray_segment_intersection_2d};
use mc::engine::*;
use mc::ensure;
use mc::geo::*;
use mc::mesh::*;
use mc::per_scalar;
use mc::solids::*;
use rug::Rational;

fn normal(a: &I3, b: &I3, c: &I3) -> [i128; 3] {
    cross3(&sub(b, a), &sub(c, a))
}
fn ratio(a: i128, b: i128) -> Rational {
    Rational::from((a, b))
}
/// where the line p + t d meets a triangle's plane: t and the barycentric weights over one denominator
fn meet(p: &I3, d: &I3, t: &[I3; 3]) -> Option<(i128, i128, [i128; 3], i128)> {
    let n = normal(&t[0], &t[1], &t[2]);
    let den = dot(&n, &d.map(|x| x as i128));
    if den == 0 {
        return None;
    }
    let num = dot(&n, &sub(&t[0], p));
    // weights of p + t d, times den * |n|^2
    let x: [i128; 3] = std::array::from_fn(|k| p[k] as i128 * den + d[k] as i128 * num);
    let nn = dot(&n, &n);
    let w: [i128; 3] = std::array::from_fn(|i| {
        let (a, b) = (t[(i + 1) % 3], t[(i + 2) % 3]);
        let e: [i128; 3] = std::array::from_fn(|k| (b[k] - a[k]) as i128);
        let f: [i128; 3] = std::array::from_fn(|k| x[k] - a[k] as i128 * den);
        let c = [e[1] * f[2] - e[2] * f[1], e[2] * f[0] - e[0] * f[2], e[0] * f[1] - e[1] * f[0]];
        n[0] * c[0] + n[1] * c[1] + n[2] * c[2]
    });
    let s = den.signum();
    Some((num * s, den * s, w.map(|v| v * s), nn * den * s))
}

per_scalar! {
    pub mod d {
        use super::*;
        type M3 = Mesh<T, 3>;
        type M2 = Mesh<T, 2>;
        fn frs(n: usize) -> Vec<Frame> {
            if T::EXACT { frames().into_iter().take(n).collect() } else { vec![frames().remove(0), frames().remove(3)].into_iter().take(n).collect() }
        }
        fn close(v: &T, want: &Rational) -> bool {
            if T::EXACT { same(v, want) } else { (fl(v) - want.to_f64()).abs() <= 1e-9 * (1.0 + want.to_f64().abs()) }
        }
        fn mesh(fr: &Frame, pts: &[I3], ts: &[Tri]) -> M3 {
            let mut m = M3::new();
            for p in pts {
                m.add_vertex(pt::<T, 3>(fr, p));
            }
            for t in ts {
                m.add_triangle(t[0], t[1], t[2]);
            }
            m
        }
        fn vec3(s: &Rational, d: &I3) -> Vector<T, 3> {
            Vector::<T, 3>::from_vals(std::array::from_fn(|k| T::of(&(Rational::from(d[k]) * s))))
        }
        /// inside, outside or on the surface of closed surfaces, at all lattice points
        pub fn inside(name: &str, sol: Vec<(String, Vec<I3>, Vec<Tri>, Box<dyn Fn(&I3) -> i32 + Send + Sync>)>, lo: i64, hi: i64, nf: usize) -> Family {
            inside_at(name, sol, lo, hi, frs(nf))
        }
        pub fn inside_at(name: &str, sol: Vec<(String, Vec<I3>, Vec<Tri>, Box<dyn Fn(&I3) -> i32 + Send + Sync>)>, lo: i64, hi: i64, frs: Vec<Frame>) -> Family {
            family(format!("{}-inside-{name}", T::NAME), (frs.len() * sol.len()) as u64, move |i, c| {
                let mut d = Dec(i);
                let fr = &frs[d.take(frs.len())];
                let (nm, pts, ts, side) = &sol[d.take(sol.len())];
                let m = mesh(fr, pts, ts);
                let tree = m.build_face_tree();
                // around a long solid only the box it fills
                let (lo, hi) = match hi > lo {
                    true => ([lo; 3], [hi; 3]),
                    false => (std::array::from_fn(|x| pts.iter().map(|p| p[x]).min().unwrap() - 1), std::array::from_fn(|x| pts.iter().map(|p| p[x]).max().unwrap() + 1)),
                };
                let n: [usize; 3] = std::array::from_fn(|x| (hi[x] - lo[x] + 1) as usize);
                for j in 0..n[0] * n[1] * n[2] {
                    let p = [lo[0] + (j % n[0]) as i64, lo[1] + (j / n[0] % n[1]) as i64, lo[2] + (j / n[0] / n[1]) as i64];
                    c.case();
                    c.call(1);
                    c.tick();
                    let got = match m.point_in_mesh_3(&tree, &pt::<T, 3>(fr, &p)) {
                        PointInMeshResult::Inside => 1,
                        PointInMeshResult::OnSurface => 0,
                        PointInMeshResult::Outside => -1,
                    };
                    let want = side(&p);
                    c.hit(match want { 1 => "inside", 0 => "on the surface", _ => "outside" });
                    ensure!(got == want, "inside", "{} {} {nm}: {p:?} counts as {got}, is {want} (1 inside, 0 on it, -1 outside)", T::NAME, fr.name);
                }
                Ok(())
            })
        }
        /// the first thing a ray meets
        pub fn rays(name: &str, sol: Vec<(String, Vec<I3>, Vec<Tri>)>, lo: i64, hi: i64, r: i64, nf: usize) -> Family {
            rays_at(name, sol, lo, hi, r, frs(nf), None)
        }
        /// directions in lattice steps, or of a length of their own
        pub fn rays_at(name: &str, sol: Vec<(String, Vec<I3>, Vec<Tri>)>, lo: i64, hi: i64, r: i64, frs: Vec<Frame>, len: Option<i32>) -> Family {
            let n = (hi - lo + 1) as usize;
            let w = (2 * r + 1) as usize;
            family(format!("{}-rays-{name}", T::NAME), (frs.len() * sol.len()) as u64, move |i, c| {
                let mut d = Dec(i);
                let fr = &frs[d.take(frs.len())];
                let (nm, pts, ts) = &sol[d.take(sol.len())];
                let m = mesh(fr, pts, ts);
                let tree = m.build_face_tree();
                let step = len.map_or(fr.s.clone(), |e| Rational::from(1) << e);
                let along = Rational::from(&fr.s / &step);
                let at: Vec<[I3; 3]> = (0..m.faces.len()).map(|f| m.face_vertices(f)).map(|v| [pts[v[0]], pts[v[1]], pts[v[2]]]).collect();
                for j in 0..n * n * n {
                    let p = lat::<3>(j, n, lo);
                    let q = pt::<T, 3>(fr, &p);
                    c.case();
                    for k in 0..w * w * w {
                        let d = lat::<3>(k, w, -r);
                        if d == [0; 3] {
                            continue;
                        }
                        c.call(1);
                        let got = m.cast_ray_3(&q, &vec3(&step, &d), &tree, &None);
                        // nearest by scanning all faces
                        let mut best: Option<(i128, i128)> = None;
                        let mut hits = vec![];
                        for (f, t) in at.iter().enumerate() {
                            if let Some((num, den, w, wd)) = meet(&p, &d, t) {
                                if num >= 0 && w.iter().all(|x| *x >= 0) {
                                    let o = best.map(|(a, b)| (num * b).cmp(&(a * den)));
                                    if o.is_none() || o == Some(std::cmp::Ordering::Less) {
                                        best = Some((num, den));
                                        hits.clear();
                                    }
                                    if o != Some(std::cmp::Ordering::Greater) {
                                        hits.push((f, w, wd));
                                    }
                                }
                            }
                        }
                        let say = || format!("{} {} {nm}: ray from {p:?} along {d:?}", T::NAME, fr.name);
                        let Some((num, den)) = best else {
                            ensure!(matches!(got, IntersectionResult::Miss), "phantom", "{} hits nothing but got {got:?}", say());
                            c.hit("miss");
                            continue;
                        };
                        let IntersectionResult::Hit(hit, t) = got else { return fail("missed", format!("{} meets the surface at {num}/{den} but got a miss", say())) };
                        ensure!(close(&t, &(ratio(num, den) * &along)), "distance", "{} meets the surface first at {num}/{den}, got {} {hit:?}", say(), fl(&t));
                        let zeros = hits[0].1.iter().filter(|x| **x == 0).count();
                        match hit {
                            IntersectionHit::Face(f, l) => {
                                let Some((_, w, wd)) = hits.iter().find(|h| h.0 == f) else { return fail("wrong-face", format!("{} does not meet face {f} there", say())) };
                                ensure!(zeros == 0, "kind", "{} meets an edge or vertex, got face {f}", say());
                                for (x, k) in [(&l.0, 0), (&l.1, 1), (&l.2, 2)] {
                                    ensure!(close(x, &ratio(w[k], *wd)), "weights", "{} meets face {f} with weight {k} {}/{}, got {}", say(), w[k], wd, fl(x));
                                }
                                c.hit("face");
                            }
                            IntersectionHit::Edge(a, b, u) => {
                                ensure!(zeros == 1, "kind", "{} does not meet an edge there, got {a}-{b}", say());
                                let ok = hits.iter().any(|(f, w, wd)| {
                                    let v = m.face_vertices(*f);
                                    let (Some(i), Some(j)) = (v.iter().position(|x| *x == a), v.iter().position(|x| *x == b)) else { return false };
                                    w[3 - i - j] == 0 && close(&u, &ratio(w[j], *wd))
                                });
                                ensure!(ok, "edge", "{} got edge {a}-{b} at {}", say(), fl(&u));
                                c.hit("edge");
                            }
                            IntersectionHit::Vertex(v) => {
                                ensure!(zeros == 2, "kind", "{} does not meet a vertex there, got {v}", say());
                                let ok = hits.iter().any(|(f, w, _)| m.face_vertices(*f).iter().position(|x| *x == v).map_or(false, |i| w[i] != 0));
                                ensure!(ok, "vertex", "{} got vertex {v}", say());
                                c.hit("vertex");
                            }
                        }
                    }
                }
                Ok(())
            })
        }
        /// inside or outside planar meshes with notches and holes, sheared in several ways
        pub fn planar(a: i64, b: i64, nf: usize) -> Family {
            let frs = frs(nf);
            let cells = (a * b) as usize;
            let k = 2;
            let maps: [[i64; 4]; 4] = [[1, 0, 0, 1], [1, 1, 0, 1], [1, -1, 2, 1], [0, 1, -1, 0]];
            family(format!("{}-planar-{a}x{b}", T::NAME), (frs.len() * maps.len() << cells) as u64, move |i, c| {
                let mut d = Dec(i);
                let fr = &frs[d.take(frs.len())];
                let mp = maps[d.take(maps.len())];
                let set = d.take(1 << cells);
                let has = |x: i64, y: i64| x >= 0 && y >= 0 && x < a && y < b && set >> (x + a * y) & 1 == 1;
                let id = |x: i64, y: i64| (x + (a + 1) * y) as usize;
                let mut ts = vec![];
                for y in 0..b {
                    for x in 0..a {
                        if has(x, y) {
                            let q = [id(x, y), id(x + 1, y), id(x + 1, y + 1), id(x, y + 1)];
                            if (x + y) % 2 == 0 {
                                ts.extend([[q[0], q[1], q[2]], [q[0], q[2], q[3]]]);
                            } else {
                                ts.extend([[q[0], q[1], q[3]], [q[1], q[2], q[3]]]);
                            }
                        }
                    }
                }
                let s = Soup { tris: ts.iter().copied().enumerate().collect() };
                if ts.is_empty() || !s.manifold_vertices() {
                    return Ok(());
                }
                let img = |x: i64, y: i64| [mp[0] * x + mp[1] * y, mp[2] * x + mp[3] * y];
                let mut m = M2::new();
                for y in 0..=b {
                    for x in 0..=a {
                        m.add_vertex(pt::<T, 2>(fr, &img(k * x, k * y)));
                    }
                }
                for t in &ts {
                    m.add_triangle(t[0], t[1], t[2]);
                }
                for y in -1..=b * k + 1 {
                    for x in -1..=a * k + 1 {
                        c.case();
                        c.call(1);
                        let opt = |v: i64| if v.rem_euclid(k) == 0 { vec![v.div_euclid(k) - 1, v.div_euclid(k)] } else { vec![v.div_euclid(k)] };
                        let near: Vec<bool> = opt(x).into_iter().flat_map(|u| opt(y).into_iter().map(move |v| (u, v))).map(|(u, v)| has(u, v)).collect();
                        let got = m.point_in_mesh_2(&pt::<T, 2>(fr, &img(x, y)));
                        let w = || format!("{} {} cells {set:b} of {a}x{b} sheared {mp:?}: ({x}/2, {y}/2)", T::NAME, fr.name);
                        if near.iter().all(|x| *x) {
                            ensure!(got, "planar", "{} lies inside", w());
                            c.hit("inside");
                        } else if !near.iter().any(|x| *x) {
                            ensure!(!got, "planar", "{} lies outside", w());
                            c.hit("outside");
                        }
                    }
                }
                Ok(())
            })
        }
        /// a ray and a segment in the plane
        pub fn segments(r: i64, nf: usize) -> Family {
            let frs = frs(nf);
            let n = (2 * r + 1) as usize;
            family(format!("{}-ray-segment", T::NAME), (frs.len() * n * n * n * n) as u64, move |i, c| {
                let mut dd = Dec(i);
                let fr = &frs[dd.take(frs.len())];
                let a = lat::<2>(dd.take(n * n), n, -r);
                let b = lat::<2>(dd.take(n * n), n, -r);
                let (pa, pb, o) = (pt::<T, 2>(fr, &a), pt::<T, 2>(fr, &b), pt::<T, 2>(fr, &[0, 0]));
                for k in 0..n * n {
                    let d = lat::<2>(k, n, -r);
                    c.case();
                    c.call(1);
                    let dir = Vector::<T, 2>::from_vals(std::array::from_fn(|k| T::of(&(Rational::from(d[k]) * &fr.s))));
                    let got = ray_segment_intersection_2d(&o, &dir, &pa, &pb);
                    let x2 = |u: I2, v: I2| u[0] * v[1] - u[1] * v[0];
                    let s = [b[0] - a[0], b[1] - a[1]];
                    let den = x2(d, s);
                    let say = || format!("{} {}: ray along {d:?} and segment {a:?}-{b:?}", T::NAME, fr.name);
                    let want: Option<(Rational, Option<Rational>)> = if d == [0, 0] {
                        None
                    } else if den != 0 {
                        let (t, u) = (Rational::from((x2(a, s), den)), Rational::from((x2(a, d), den)));
                        if t >= 0 && u >= 0 && u <= 1 { Some((t, Some(u))) } else { None }
                    } else if x2(a, d) != 0 || x2(b, d) != 0 {
                        None
                    } else {
                        let q = (d[0] * d[0] + d[1] * d[1]) as i64;
                        let ta = Rational::from((a[0] * d[0] + a[1] * d[1], q));
                        let tb = Rational::from((b[0] * d[0] + b[1] * d[1], q));
                        let (lo, hi) = if ta <= tb { (ta.clone(), tb.clone()) } else { (tb.clone(), ta.clone()) };
                        if hi < 0 {
                            None
                        } else {
                            let t = if lo < 0 { Rational::from(0) } else { lo };
                            let u = if ta == tb { None } else { Some(Rational::from(&t - &ta) / Rational::from(&tb - &ta)) };
                            Some((t, u))
                        }
                    };
                    match (&got, &want) {
                        (None, None) => c.hit("apart"),
                        (Some((t, u)), Some((wt, wu))) => {
                            ensure!(close(t, wt), "ray-distance", "{} meet at {wt}, got {}", say(), fl(t));
                            if let Some(wu) = wu {
                                ensure!(close(u, wu), "segment-parameter", "{} meet at parameter {wu}, got {}", say(), fl(u));
                            }
                            c.hit(if den == 0 { "along" } else { "crossing" });
                        }
                        _ => return fail("ray-segment", format!("{} got {:?}, should be {want:?}", say(), got.map(|(t, u)| (fl(&t), fl(&u))))),
                    }
                }
                Ok(())
            })
        }
        /// a ray from a corner across its triangle
        pub fn corner(tris: Vec<[I3; 3]>, r: i64, nf: usize) -> Family {
            let frs = frs(nf);
            let n = (2 * r + 1) as usize;
            family(format!("{}-from-corner", T::NAME), (frs.len() * tris.len()) as u64, move |i, c| {
                let mut dd = Dec(i);
                let fr = &frs[dd.take(frs.len())];
                let t = tris[dd.take(tris.len())];
                let m = mesh(fr, &t, &[[0, 1, 2]]);
                for v in 0..3 {
                    let (a, b) = ((v + 1) % 3, (v + 2) % 3);
                    let (e1, e2) = (sub(&t[a], &t[v]), sub(&t[b], &t[v]));
                    let nv = normal(&t[v], &t[a], &t[b]);
                    let nn = dot(&nv, &nv);
                    for k in 0..n * n * n {
                        let d = lat::<3>(k, n, -r);
                        // d = (al e1 + be e2) / nn + something along the normal
                        let al = dot(&nv, &cross3(&d.map(|x| x as i128), &e2));
                        let be = dot(&nv, &cross3(&e1, &d.map(|x| x as i128)));
                        c.case();
                        for which in 0..2 {
                            c.call(1);
                            let dir = vec3(&fr.s, &d);
                            let got = if which == 0 { m.cast_ray_from_vertex_in_triangle(0, v, &dir) } else { m.cast_ray_from_vertex_in_triangle_3(0, v, &dir) };
                            let say = || format!("{} {} triangle {t:?}: ray from corner {v} along {d:?} (variant {which})", T::NAME, fr.name);
                            match got {
                                None => {
                                    ensure!((al == 0 && be == 0) || (al != 0 && be != 0 && !(al > 0 && be > 0)), "lost", "{} finds nothing", say());
                                    c.hit("nothing");
                                }
                                Some(VertexRayResult::CollinearWithEdge(h)) => {
                                    let (x, y) = (m.source(h), m.target(h));
                                    let want = if be == 0 && al > 0 { (v, a) } else if be == 0 && al < 0 { (a, v) } else if al == 0 && be > 0 { (v, b) } else { (b, v) };
                                    ensure!((al == 0) != (be == 0) && (x, y) == want, "along", "{} runs along {x}-{y}", say());
                                    c.hit("along an edge");
                                }
                                Some(VertexRayResult::EdgeIntersection { half_edge, distance, edge_parameter }) => {
                                    ensure!(al > 0 && be > 0, "phantom", "{} leaves through half-edge {half_edge}", say());
                                    ensure!((m.source(half_edge), m.target(half_edge)) == (a, b), "other-edge", "{} leaves through half-edge {half_edge}", say());
                                    ensure!(close(&distance, &ratio(nn, al + be)), "exit-distance", "{} leaves at {}/{}, got {}", say(), nn, al + be, fl(&distance));
                                    ensure!(close(&edge_parameter, &ratio(be, al + be)), "exit-parameter", "{} leaves at {}/{} of the edge, got {}", say(), be, al + be, fl(&edge_parameter));
                                    c.hit("across");
                                }
                            }
                        }
                    }
                }
                Ok(())
            })
        }
    }
}

type Sides = Vec<(String, Vec<I3>, Vec<Tri>, Box<dyn Fn(&I3) -> i32 + Send + Sync>)>;
fn sides(v: Vec<Solid>, k: i64) -> Sides {
    v.into_iter()
        .map(|s| {
            let (n, p, t) = (s.name.clone(), s.pts.clone(), s.tris.clone());
            (n, p, t, Box::new(move |q: &I3| s.side(q, k)) as Box<dyn Fn(&I3) -> i32 + Send + Sync>)
        })
        .collect()
}
fn tets(g: &[I3], k: i64) -> Vec<(String, Vec<I3>, Vec<Tri>, [I3; 4])> {
    let mut out = vec![];
    for a in 0..g.len() {
        for b in a + 1..g.len() {
            for c in b + 1..g.len() {
                for d in c + 1..g.len() {
                    let t = [g[a], g[b], g[c], g[d]].map(|p| p.map(|x| x * k));
                    if let Some(ts) = tet_tris(&t) {
                        out.push((format!("tetrahedron {t:?}"), t.to_vec(), ts, t));
                    }
                }
            }
        }
    }
    out
}
fn tet_sides(g: &[I3], k: i64) -> Sides {
    tets(g, k).into_iter().map(|(n, p, t, q)| (n, p, t, Box::new(move |x: &I3| tet_side(&q, x)) as Box<dyn Fn(&I3) -> i32 + Send + Sync>)).collect()
}
fn plain(v: Vec<Solid>) -> Vec<(String, Vec<I3>, Vec<Tri>)> {
    v.into_iter().map(|s| (s.name, s.pts, s.tris)).collect()
}
fn plain_tets(g: &[I3], k: i64) -> Vec<(String, Vec<I3>, Vec<Tri>)> {
    tets(g, k).into_iter().map(|(a, b, c, _)| (a, b, c)).collect()
}

/// the plain lattice times a power of two
/// nested slanted shells: every choice of the given sizes (or only all of them) around one centre, under four shears
fn onions(sizes: &[i64], all: bool) -> Sides {
    let maps: [[I3; 3]; 4] = [[[1, 0, 0], [0, 1, 0], [0, 0, 1]], [[1, 1, 0], [0, 1, 0], [0, 0, 1]], [[1, 0, 0], [0, 1, 0], [-1, 1, 1]], [[1, 0, 0], [1, 1, 0], [0, 1, 1]]];
    let back: [[I3; 3]; 4] = [maps[0], [[1, -1, 0], [0, 1, 0], [0, 0, 1]], [[1, 0, 0], [0, 1, 0], [1, -1, 1]], [[1, 0, 0], [-1, 1, 0], [1, -1, 1]]];
    let by = |m: &[I3; 3], p: &I3| -> I3 { std::array::from_fn(|i| (0..3).map(|k| m[i][k] * p[k]).sum()) };
    let mut v: Sides = vec![];
    for (m, b) in maps.iter().zip(back) {
        for set in if all { (1 << sizes.len()) - 1 } else { 1 }..1usize << sizes.len() {
            let rs: Vec<i64> = (0..sizes.len()).filter(|k| set >> k & 1 == 1).map(|k| sizes[k]).collect();
            let (mut pts, mut ts) = (vec![], vec![]);
            for (n, r) in rs.iter().rev().enumerate() {
                let o = pts.len();
                for p in [[*r, 0, 0], [0, *r, 0], [0, 0, *r], [-r, 0, 0], [0, -r, 0], [0, 0, -r]] {
                    pts.push(by(m, &p));
                }
                for k in 0..8 {
                    let at: Vec<usize> = (0..3).map(|x| o + x + 3 * (k >> x & 1)).collect();
                    let even = [0, 3, 5, 6].contains(&k) == (n % 2 == 0);
                    ts.push(if even { [at[0], at[1], at[2]] } else { [at[0], at[2], at[1]] });
                }
            }
            let name = format!("shells {rs:?} under {m:?}");
            v.push((name, pts, ts, Box::new(move |p: &I3| {
                let q = by(&b, p);
                let l: i64 = q.iter().map(|x| x.abs()).sum();
                if rs.contains(&l) { 0 } else if rs.iter().filter(|r| **r > l).count() % 2 == 1 { 1 } else { -1 }
            })));
        }
    }
    v
}
fn scaled(e: &[i32]) -> Vec<Frame> {
    e.iter().map(|e| Frame { name: Box::leak(format!("2^{e}").into_boxed_str()), s: Rational::from(1) << *e, off: std::array::from_fn(|_| Rational::new()), dyadic: true, exact_only: false }).collect()
}

fn main() {
    let th = thorough() as usize;
    let g18: Vec<I3> = (0..18).map(|i| [i as i64 % 3, i as i64 / 3 % 3, i as i64 / 9]).collect();
    let g12: Vec<I3> = g18.iter().copied().filter(|p| p[1] < 2).collect();
    let g8: Vec<I3> = g12.iter().copied().filter(|p| p[0] < 2).collect();
    let tri = |g: &[I3]| -> Vec<[I3; 3]> {
        let mut v = vec![];
        for a in g {
            for b in g {
                for c in g {
                    if a < b && a < c && normal(a, b, c) != [0; 3] {
                        v.push([*a, *b, *c]);
                    }
                }
            }
        }
        v
    };
    let mut f = vec![
        sf::d::inside("blocks", sides(blocks(2, 2, 2, 4, true), 4), -1, 9, 1),
        sf::d::inside("slabs", sides(blocks(3, 3, 1, 2, false), 2), -1, 7, 2),
        sf::d::inside("big", sides(big(2, true), 2), -1, 7, 2),
        sf::d::inside("tetrahedra", tet_sides(&g18, 2), -1, 5, 1),
        sr::d::inside("blocks", sides(blocks(2, 2, 2, 2, true), 2), -1, 5, 2),
        sr::d::inside("big", sides(big(2, true), 2), -1, 7, 2 + 3 * th),
        sr::d::inside("tetrahedra", tet_sides(&g8, 2), -1, 5, 5),
        sl::d::inside("blocks", sides(blocks(2, 2, 2, 2, true), 2), -1, 5, 1),
        sl::d::inside("big", sides(big(2, true), 2), -1, 7, 1 + 4 * th),
        sl::d::inside("tetrahedra", tet_sides(&g8, 2), -1, 5, 5),
        sf::d::inside("long", sides(long(9 + 5 * th as i64, 2), 2), 0, 0, 1),
        sr::d::inside("long", sides(long(5, 2), 2), 0, 0, 2),
        sl::d::inside("long", sides(long(4, 2), 2), 0, 0, 2),
        sf::d::inside("shells", onions(&[2, 4, 6], false), 0, 0, 2),
        sf::d::inside("many-shells", (4..8 + 2 * th).flat_map(|n| onions(&(0..n as i64).map(|k| 2 * k + 1).collect::<Vec<_>>(), true).into_iter().take(2)).collect(), 0, 0, 1),
        sr::d::inside("shells", onions(&[1, 3, 4], false), 0, 0, 2),
        sl::d::inside("shells", onions(&[1, 3, 4], false), 0, 0, 1),
        sf::d::rays("shells", onions(&[1, 3], false).into_iter().map(|s| (s.0, s.1, s.2)).collect(), -4, 4, 1, 1),
        sf::d::rays("long-solids", plain(long(7, 2)), -1, 3, 1, 1),
        sf::d::rays("blocks", plain(blocks(2, 2, 1, 2, true)), -1, 5, 2, 2),
        sf::d::rays("big", plain(big(2, true)), -1, 7, 1, 1),
        sf::d::rays("tetrahedra", plain_tets(&g12, 2), -1, 5, 1, 2),
        sr::d::rays("blocks", plain(blocks(2, 2, 1, 2, true)), -1, 5, 1, 2),
        sr::d::rays("tetrahedra", plain_tets(&g8, 1), -1, 3, 2, 5),
        sl::d::rays("blocks", plain(blocks(2, 2, 1, 2, true)), -1, 5, 1, 2),
        sl::d::rays("tetrahedra", plain_tets(&g8, 1), -1, 3, 1 + th as i64, 5),
        // far away, far apart, and directions of any length
        sf::d::inside_at("scaled-blocks", sides(blocks(2, 1, 1, 2, true), 2), -1, 5, scaled(&[10, 20, 23, 24, 25, 30, 40])),
        sr::d::inside_at("scaled-blocks", sides(blocks(2, 1, 1, 2, true), 2), -1, 5, scaled(&[-60, -20, 24, 60, 200])),
        sl::d::inside_at("scaled-blocks", sides(blocks(2, 1, 1, 2, true), 2), -1, 5, scaled(&[-60, 24, 60])),
        sf::d::rays_at("long", plain_tets(&g8, 2), -1, 3, 1, scaled(&[0, 24]), Some(0)),
        sf::d::rays_at("longer", plain_tets(&g8, 2), -1, 3, 1, scaled(&[10, 30]), Some(-4)),
        sr::d::rays_at("long", plain_tets(&g8, 2), -1, 3, 1, scaled(&[-30, 30]), Some(-20)),
        sl::d::rays_at("long", plain_tets(&g8, 2), -1, 2, 1, scaled(&[30]), Some(-20)),
        sf::d::planar(3, 3, 2),
        sr::d::planar(3, 3, 1 + 4 * th),
        sl::d::planar(3, 3, 1 + 4 * th),
        sf::d::segments(3, 2),
        sr::d::segments(2, 5),
        sl::d::segments(2, 5),
        sf::d::corner(tri(&g18), 2, 1),
        sr::d::corner(tri(&g12), 1, 5),
        sl::d::corner(tri(&g12), 1, 5),
    ];
    if th == 1 {
        f.push(sf::d::planar(4, 3, 1));
        f.push(sf::d::inside("longer", sides(blocks(3, 2, 2, 2, true), 2), -1, 7, 1));
    }
    run_check(
        "C19",
        Opts {
            rule: "every lattice point around every set of cells with an unpinched surface and every lattice tetrahedron, every small ray direction from those points, every set of planar cells under four shears, every ray and segment and every ray from a corner of a lattice triangle".into(),
            assumptions: vec!["rays lying in the plane of a face meet that face only through its neighbours".into(), "points on the outline of a planar mesh may count either way".into(), "in doubles, distances and weights may be off by a relative 1e-9".into()],
            ..Default::default()
        },
        f,
    )
}
