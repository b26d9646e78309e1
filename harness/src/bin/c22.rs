//! C22: booleans of two closed solids give the union, the intersection and the difference.
use cgar::mesh::basic_types::*;
use cgar::mesh_processing::boolean::BooleanOp;
use mc::engine::*;
use mc::ensure;
use mc::geo::*;
use mc::mesh::*;
use mc::per_scalar;
use mc::solids::*;
use rug::Rational;
use std::collections::BTreeSet;

/// fine lattice of the sample points
const Q: i128 = 1_000_003;

fn op_of(k: usize) -> (BooleanOp, &'static str) {
    match k {
        0 => (BooleanOp::Union, "union"),
        1 => (BooleanOp::Intersection, "intersection"),
        _ => (BooleanOp::Difference, "difference"),
    }
}
fn want(k: usize, a: bool, b: bool) -> bool {
    match k {
        0 => a || b,
        1 => a && b,
        _ => a && !b,
    }
}

/// winding number of a closed surface of axis-parallel triangles around a fine lattice point
fn winding(pts: &[[i128; 3]], tris: &[Tri], p: &[i128; 3]) -> Option<i32> {
    let mut w = 0;
    for t in tris {
        let v: [[i128; 3]; 3] = t.map(|i| pts[i].map(|x| x * Q));
        if v[0][0] != v[1][0] || v[0][0] != v[2][0] || v[0][0] < p[0] {
            continue;
        }
        let s: [i128; 3] = std::array::from_fn(|i| {
            let (a, b) = (v[i], v[(i + 1) % 3]);
            ((b[1] - a[1]) * (p[2] - a[2]) - (b[2] - a[2]) * (p[1] - a[1])).signum()
        });
        if s.contains(&0) && !(s.contains(&1) && s.contains(&-1)) {
            return None;
        }
        if s.iter().all(|x| *x > 0) {
            w += 1;
        } else if s.iter().all(|x| *x < 0) {
            w -= 1;
        }
    }
    Some(w)
}
fn area2(pts: &[[i128; 3]], t: &Tri) -> Option<i128> {
    let e = |i: usize| -> [i128; 3] { std::array::from_fn(|k| pts[t[i]][k] - pts[t[0]][k]) };
    let n = cross3(&e(1), &e(2));
    let nz: Vec<i128> = n.iter().copied().filter(|x| *x != 0).collect();
    if nz.len() == 1 { Some(nz[0].abs()) } else { None }
}

/// the cells cut out by all the planes of some solids, and which of them are in
#[derive(Clone)]
struct Grid {
    br: [Vec<i64>; 3],
    n: I3u,
    k: i64,
    inn: Vec<bool>,
}
type I3u = [usize; 3];
impl Grid {
    fn new(sol: &[(&Solid, I3)], k: i64) -> Grid {
        let br: [Vec<i64>; 3] = std::array::from_fn(|ax| sol.iter().flat_map(|(s, o)| s.pts.iter().map(move |p| p[ax] + o[ax])).collect::<BTreeSet<i64>>().into_iter().collect());
        let n: I3u = std::array::from_fn(|ax| br[ax].len() + 1);
        Grid { br, n, k, inn: vec![false; n[0] * n[1] * n[2]] }
    }
    fn cells(&self) -> impl Iterator<Item = I3u> + use<> {
        let n = self.n;
        (0..n[0] * n[1] * n[2]).map(move |i| [i % n[0], i / n[0] % n[1], i / n[0] / n[1]])
    }
    fn cell(&self, i: &I3u) -> (I3, I3) {
        let lo = |ax: usize| if i[ax] == 0 { self.br[ax][0] - 1 } else { self.br[ax][i[ax] - 1] };
        (std::array::from_fn(lo), std::array::from_fn(|ax| if i[ax] == self.n[ax] - 1 { lo(ax) + 1 } else { self.br[ax][i[ax]] }))
    }
    fn has(&self, i: &I3u) -> bool {
        self.inn[i[0] + self.n[0] * (i[1] + self.n[1] * i[2])]
    }
    fn inside(&self, s: &Solid, off: &I3, i: &I3u) -> bool {
        let (l, _) = self.cell(i);
        s.cells.contains(&std::array::from_fn(|ax| (l[ax] - off[ax]).div_euclid(self.k)))
    }
    fn start(&mut self, s: &Solid) {
        self.inn = self.cells().map(|i| self.inside(s, &[0, 0, 0], &i)).collect();
    }
    fn apply(&mut self, op: usize, s: &Solid, off: &I3) {
        self.inn = self.cells().map(|i| want(op, self.has(&i), self.inside(s, off, &i))).collect();
    }
    /// around every grid point the cells in, and those out, hang together through faces
    fn manifold(&self) -> bool {
        for i in self.cells() {
            if (0..3).any(|ax| i[ax] + 1 >= self.n[ax]) {
                continue;
            }
            let bits: Vec<bool> = (0..8).map(|b| self.has(&[i[0] + (b & 1), i[1] + (b >> 1 & 1), i[2] + (b >> 2)])).collect();
            for v in [true, false] {
                let of: Vec<usize> = (0..8).filter(|b| bits[*b] == v).collect();
                if of.is_empty() {
                    continue;
                }
                let mut seen = vec![of[0]];
                let mut k = 0;
                while k < seen.len() {
                    for ax in 0..3 {
                        let o = seen[k] ^ (1 << ax);
                        if bits[o] == v && !seen.contains(&o) {
                            seen.push(o);
                        }
                    }
                    k += 1;
                }
                if seen.len() != of.len() {
                    return false;
                }
            }
        }
        true
    }
}

type R3 = [Rational; 3];
/// a convex solid: points where every (n, d) has n.p <= d
pub struct Hull {
    planes: Vec<([i128; 3], i128)>,
}
impl Hull {
    fn tet(t: &[I3; 4]) -> Option<Hull> {
        let tr = tet_tris(t)?;
        let planes = tr.iter().map(|f| {
            let n = cross3(&sub(&t[f[1]], &t[f[0]]), &sub(&t[f[2]], &t[f[0]]));
            (n, dot(&n, &t[f[0]].map(|x| x as i128)))
        }).collect();
        Some(Hull { planes })
    }
    /// is p + e d inside for small e > 0? None if that runs along the surface
    fn has(&self, p: &R3, d: &R3) -> Option<bool> {
        let mut along = false;
        for (n, k) in &self.planes {
            let v = Rational::from(*k) - (0..3).map(|i| Rational::from(n[i]) * &p[i]).fold(Rational::new(), |a, b| a + b);
            let s = match sgn_q(&v) {
                0 => -sgn_q(&(0..3).map(|i| Rational::from(n[i]) * &d[i]).fold(Rational::new(), |a, b| a + b)),
                x => x,
            };
            if s < 0 {
                return Some(false);
            }
            along |= s == 0;
        }
        if along { None } else { Some(true) }
    }
    /// six times the volume common to two, and the dimension of what they share
    fn common(&self, o: &Hull) -> (Rational, i32) {
        let mut pl: Vec<([i128; 3], i128)> = vec![];
        for (n, d) in self.planes.iter().chain(&o.planes) {
            let g = n.iter().chain([d]).fold(0i128, |a, b| gcd(a, b.abs()));
            let c = (n.map(|x| x / g), d / g);
            if !pl.contains(&c) {
                pl.push(c);
            }
        }
        let mut vs: Vec<R3> = vec![];
        for i in 0..pl.len() {
            for j in 0..i {
                for k in 0..j {
                    let m = [pl[i].0, pl[j].0, pl[k].0];
                    let det = dot(&cross3(&m[0], &m[1]), &m[2]);
                    if det == 0 {
                        continue;
                    }
                    let d = [pl[i].1, pl[j].1, pl[k].1];
                    let (c0, c1, c2) = (cross3(&m[1], &m[2]), cross3(&m[2], &m[0]), cross3(&m[0], &m[1]));
                    let num: [i128; 3] = std::array::from_fn(|a| d[0] * c0[a] + d[1] * c1[a] + d[2] * c2[a]);
                    let s = det.signum();
                    if pl.iter().all(|(n, k)| (dot(n, &num) - k * det) * s <= 0) {
                        let v: R3 = num.map(|x| Rational::from((x, det)));
                        if !vs.contains(&v) {
                            vs.push(v);
                        }
                    }
                }
            }
        }
        if vs.is_empty() {
            return (Rational::new(), -1);
        }
        let mut vol = Rational::new();
        for (n, d) in &pl {
            let on = |v: &R3| sgn_q(&((0..3).map(|i| Rational::from(n[i]) * &v[i]).fold(Rational::new(), |a, b| a + b) - Rational::from(*d))) == 0;
            if on(&vs[0]) {
                continue;
            }
            let mut f: Vec<&R3> = vs.iter().filter(|v| on(v)).collect();
            if f.len() < 3 {
                continue;
            }
            let p0 = f.remove(0);
            let nr: R3 = n.map(Rational::from);
            f.sort_by(|a, b| sgn_q(&det_r(&nr, &sub_r(b, p0), &sub_r(a, p0))).cmp(&0));
            for w in f.windows(2) {
                vol += det_r(&sub_r(p0, &vs[0]), &sub_r(w[0], &vs[0]), &sub_r(w[1], &vs[0])).abs();
            }
        }
        // dimension: rank of the differences
        let mut dim = 0;
        for a in &vs {
            let u = sub_r(a, &vs[0]);
            if u.iter().any(|x| sgn_q(x) != 0) {
                dim = dim.max(1);
                for b in &vs {
                    let w = sub_r(b, &vs[0]);
                    if crs_r(&u, &w).iter().any(|x| sgn_q(x) != 0) {
                        dim = dim.max(2);
                    }
                }
            }
        }
        if sgn_q(&vol) != 0 {
            dim = 3;
        }
        (vol, dim)
    }
}
fn gcd(a: i128, b: i128) -> i128 {
    if b == 0 { a } else { gcd(b, a % b) }
}
fn sub_r(a: &R3, b: &R3) -> R3 {
    std::array::from_fn(|i| Rational::from(&a[i] - &b[i]))
}
fn crs_r(a: &R3, b: &R3) -> R3 {
    std::array::from_fn(|i| {
        let (j, k) = ((i + 1) % 3, (i + 2) % 3);
        Rational::from(&a[j] * &b[k]) - Rational::from(&a[k] * &b[j])
    })
}
fn det_r(a: &R3, b: &R3, c: &R3) -> Rational {
    let x = crs_r(a, b);
    (0..3).map(|i| Rational::from(&x[i] * &c[i])).fold(Rational::new(), |p, q| p + q)
}
/// all tetrahedra of a lattice
fn tets(dim: I3, k: i64) -> Vec<[I3; 4]> {
    let ps: Vec<I3> = (0..dim[0]).flat_map(|x| (0..dim[1]).flat_map(move |y| (0..dim[2]).map(move |z| [x * k, y * k, z * k]))).collect();
    let mut out = vec![];
    for a in 0..ps.len() {
        for b in 0..a {
            for c in 0..b {
                for d in 0..c {
                    let t = [ps[d], ps[c], ps[b], ps[a]];
                    if tet_tris(&t).is_some() {
                        out.push(t);
                    }
                }
            }
        }
    }
    out
}
/// nothing but edges through the inside of faces
fn general(a: &[I3; 4], b: &[I3; 4]) -> bool {
    for (s, t) in [(a, b), (b, a)] {
        for f in tet_tris(t).unwrap() {
            let n = cross3(&sub(&t[f[1]], &t[f[0]]), &sub(&t[f[2]], &t[f[0]]));
            for p in s {
                if dot(&n, &sub(p, &t[f[0]])) == 0 && tri_loc_i(p, &t[f[0]], &t[f[1]], &t[f[2]]) != Loc::Off {
                    return false;
                }
            }
        }
    }
    for i in 0..4 {
        for j in 0..i {
            for k in 0..4 {
                for l in 0..k {
                    if !matches!(seg_seg_i(&a[i], &a[j], &b[k], &b[l]), SegX::None) {
                        return false;
                    }
                }
            }
        }
    }
    true
}

per_scalar! {
    pub mod d {
        use super::*;
        type M3 = Mesh<T, 3>;
        fn mesh(fr: &Frame, pts: &[I3], ts: &[Tri]) -> M3 {
            let mut m = M3::new();
            for p in pts {
                m.add_vertex(pt::<T, 3>(fr, p));
            }
            for t in ts {
                m.add_triangle(t[0], t[1], t[2]);
            }
            m
        }
        /// lattice coordinates of the vertices as integers over one denominator
        fn back(fr: &Frame, m: &M3) -> Result<(Vec<[i128; 3]>, i128), String> {
            let mut pts: Vec<R3> = vec![];
            for v in &m.vertices {
                let mut p = R3::default();
                for k in 0..3 {
                    let q = if T::EXACT { v.position[k].val() } else { Rational::from_f64(fl(&v.position[k])) }.ok_or("not a number")?;
                    p[k] = (q - &fr.off[k]) / &fr.s;
                }
                pts.push(p);
            }
            let mut den = 1i128 << 30;
            if T::EXACT {
                den = 1;
                for x in pts.iter().flatten() {
                    let d = x.denom().to_i128().filter(|d| *d < 1 << 40).ok_or("a coordinate with a huge denominator")?;
                    den = den / gcd(den, d) * d;
                    if den > 1 << 40 {
                        return Err("huge common denominator".into());
                    }
                }
            }
            let pts = pts.iter().map(|p| p.each_ref().map(|x| Rational::from(x * Rational::from(den)).round().numer().to_i128().unwrap())).collect();
            Ok((pts, den))
        }
        /// compares a surface with the cells it should bound
        fn compare(fr: &Frame, r: &M3, g: &Grid, w: &dyn Fn() -> String, c: &mut Ctx) -> Res {
            c.case();
            let (pts, den) = match back(fr, r) { Ok(p) => p, Err(e) => return fail("vertex", format!("{}: {e}", w())) };
            let ts = soup(r);
            let mut area = 0i128;
            for i in g.cells() {
                let (l, h) = g.cell(&i);
                let ins = g.has(&i);
                let p: [i128; 3] = std::array::from_fn(|ax| (l[ax] as i128 * Q + [7, 1, 1009][ax]) * den);
                let wn = match winding(&pts, &ts, &p) { Some(v) => v, None => return fail("harness", format!("{}: sample on an edge", w())) };
                ensure!(wn == ins as i32, "solid", "{}: around the cell {l:?}..{h:?} the result winds {wn} times, wanted {}", w(), ins as i32);
                for ax in 0..3 {
                    let mut j = i;
                    j[ax] += 1;
                    if j[ax] < g.n[ax] && g.has(&j) != ins {
                        let (u, v) = ((ax + 1) % 3, (ax + 2) % 3);
                        area += 2 * (h[u] - l[u]) as i128 * (h[v] - l[v]) as i128;
                    }
                }
            }
            let mut got = 0;
            for t in &ts {
                match area2(&pts, t) {
                    Some(s) => got += s,
                    None => return fail("face", format!("{}: a triangle {:?} that is in no face of the solids", w(), t.map(|i| pts[i]))),
                }
            }
            area *= den * den;
            ensure!(if T::EXACT { got == area } else { (got - area).abs() <= (area >> 24) }, "area", "{}: the surface has the doubled area {}, wanted {}", w(), got as f64 / (den * den) as f64, area / den / den);
            if let Err(e) = invariants(r) { return fail("mesh", format!("{}: {e}", w())); }
            let s = Soup { tris: ts.iter().copied().enumerate().collect() };
            ensure!(s.closed(), "open", "{}: the result has a border", w());
            c.hit(if ts.is_empty() { "empty" } else { "some surface" });
            Ok(())
        }
        /// solids combined one after the other, each step compared
        fn chain(fr: &Frame, a: &Solid, more: &[(&Solid, I3, usize)], k: i64, c: &mut Ctx) -> Res {
            let all: Vec<(&Solid, I3)> = std::iter::once((a, [0, 0, 0])).chain(more.iter().map(|m| (m.0, m.1))).collect();
            let mut g = Grid::new(&all, k);
            g.start(a);
            let mut cur = mesh(fr, &a.pts, &a.tris);
            let mut what = format!("{} {} {}", T::NAME, fr.name, a.name);
            for (b, off, op) in more {
                let bp: Vec<I3> = b.pts.iter().map(|p| std::array::from_fn(|i| p[i] + off[i])).collect();
                let (o, on) = op_of(*op);
                what = format!("{what} {on} {} moved by {off:?}/{k}", b.name);
                let old = g.clone();
                g.apply(*op, b, off);
                if !g.manifold() {
                    c.hit("not a manifold");
                    return Ok(());
                }
                let mut mb = mesh(fr, &bp, &b.tris);
                let w = || what.clone();
                let r = match guarded(|| cur.corefine_and_boolean(&mut mb, o)) {
                    Ok(r) => r,
                    Err(e) => return fail("panic", format!("{}: {e}", w())),
                };
                c.call(1);
                compare(fr, &r, &g, &w, c)?;
                // the operands are cut finer, but are still the same solids
                compare(fr, &cur, &old, &|| format!("{}: first operand", w()), c)?;
                let mut gb = Grid::new(&all, k);
                gb.apply(0, b, off);
                compare(fr, &mb, &gb, &|| format!("{}: second operand", w()), c)?;
                cur = r;
            }
            Ok(())
        }
        fn one(fr: &Frame, a: &Solid, b: &Solid, off: &I3, k: i64, op: usize, c: &mut Ctx) -> Res {
            chain(fr, a, &[(b, *off, op)], k, c)
        }
        /// two tetrahedra
        fn two(fr: &Frame, a: &[I3; 4], b: &[I3; 4], c: &mut Ctx) -> Res {
            let (ta, tb) = (tet_tris(a).unwrap(), tet_tris(b).unwrap());
            let (ha, hb) = (Hull::tet(a).unwrap(), Hull::tet(b).unwrap());
            let (vi, dim) = ha.common(&hb);
            let vol = |t: &[I3; 4]| Rational::from(dot(&cross3(&sub(&t[1], &t[0]), &sub(&t[2], &t[0])), &sub(&t[3], &t[0])).abs());
            let gen_pos = general(a, b);
            c.case();
            for op in 0..3 {
                // where they touch without sharing any area, the union is no manifold; nor need be the difference where corners or edges meet
                if (op == 0 && (dim == 0 || dim == 1)) || (op == 2 && !gen_pos) {
                    c.hit("not a manifold");
                    continue;
                }
                let mut ma = mesh(fr, a, &ta);
                let mut mb = mesh(fr, b, &tb);
                let (o, on) = op_of(op);
                let w = || format!("{} {} {on} of the tetrahedra {a:?} and {b:?}", T::NAME, fr.name);
                let r = match guarded(|| ma.corefine_and_boolean(&mut mb, o)) {
                    Ok(r) => r,
                    Err(e) => return fail("panic", format!("{}: {e}", w())),
                };
                c.call(1);
                let want_vol = match op { 0 => vol(a) + vol(b) - &vi, 1 => vi.clone(), _ => vol(a) - &vi };
                let mut pts: Vec<R3> = vec![];
                for v in &r.vertices {
                    let mut p = R3::default();
                    for k in 0..3 {
                        let q = if T::EXACT { v.position[k].val() } else { Rational::from_f64(fl(&v.position[k])) };
                        let q = match q { Some(q) => q, None => return fail("vertex", format!("{}: not a number", w())) };
                        p[k] = (q - &fr.off[k]) / &fr.s;
                    }
                    pts.push(p);
                }
                let ts = soup(&r);
                let got: Rational = ts.iter().map(|t| det_r(&pts[t[0]], &pts[t[1]], &pts[t[2]])).fold(Rational::new(), |p, q| p + q);
                let e = Rational::from(&got - &want_vol).abs().to_f64();
                ensure!(if T::EXACT { e == 0.0 } else { e < 1e-9 }, "volume", "{}: six times the volume is {}, wanted {}; faces {:?}", w(), got.to_f64(), want_vol.to_f64(), ts.len());
                if T::EXACT {
                    for t in &ts {
                        let n = crs_r(&sub_r(&pts[t[1]], &pts[t[0]]), &sub_r(&pts[t[2]], &pts[t[0]]));
                        ensure!(n.iter().any(|x| sgn_q(x) != 0), "flat", "{}: a triangle without area", w());
                        let m: R3 = std::array::from_fn(|i| Rational::from(-&n[i]));
                        for wt in [[1, 1, 1], [7, 1, 1], [1, 7, 1], [1, 1, 7]] {
                            let s = wt.iter().sum::<i32>();
                            let p: R3 = std::array::from_fn(|k| (0..3).map(|i| Rational::from((wt[i], s)) * &pts[t[i]][k]).fold(Rational::new(), |a, b| a + b));
                            let side = |d: &R3| Some(want(op, ha.has(&p, d)?, hb.has(&p, d)?));
                            ensure!(side(&n) != Some(true) && side(&m) != Some(false), "surface", "{}: a triangle near {:?} is not on the surface", w(), p.each_ref().map(|x| x.to_f64()));
                        }
                    }
                }
                if let Err(e) = invariants(&r) { return fail("mesh", format!("{}: {e}", w())); }
                let s = Soup { tris: ts.iter().copied().enumerate().collect() };
                ensure!(s.closed(), "open", "{}: the result has a border", w());
                c.hit(match (gen_pos, dim) { (true, 3) => "general position", (true, _) => "apart", (_, 3) => "touching and crossing", (_, 2) => "sharing area only", _ => "touching" });
            }
            Ok(())
        }
        pub fn tets_x(da: I3, db: I3, k: i64, off: I3, fr: usize) -> Family {
            let fr = frames().remove(fr);
            let (sa, sb) = (tets(da, k), tets(db, k));
            family(format!("{}-tets-{da:?}-{db:?}-{off:?}", T::NAME).replace(['[', ']', ' '], "").replace(',', "x"), sa.len() as u64, move |i, c| {
                let a = &sa[i as usize];
                for b in &sb {
                    let b = b.map(|p| std::array::from_fn(|x| p[x] + off[x]));
                    two(&fr, a, &b, c)?;
                }
                Ok(())
            })
        }
        /// two cubes one face of each of which was taken away and put back
        pub fn edited(offs: Vec<I3>, k: i64, fr: usize) -> Family {
            let fr = frames().remove(fr);
            let (sa, sb) = (blocks(1, 1, 1, k, false), blocks(1, 1, 1, k, true));
            family(format!("{}-edited-{}", T::NAME, offs.len()), (12 * offs.len()) as u64, move |i, c| {
                let mut d = Dec(i);
                let off = offs[d.take(offs.len())];
                let fa = d.take(12);
                let (a, b) = (&sa[0], &sb[0]);
                let bp: Vec<I3> = b.pts.iter().map(|p| std::array::from_fn(|i| p[i] + off[i])).collect();
                for fb in 0..12 {
                    for op in 0..3 {
                        let mut g = Grid::new(&[(a, [0; 3]), (b, off)], k);
                        g.start(a);
                        g.apply(op, b, &off);
                        if !g.manifold() {
                            continue;
                        }
                        let (mut ma, mut mb) = (mesh(&fr, &a.pts, &a.tris), mesh(&fr, &bp, &b.tris));
                        for (m, f, s) in [(&mut ma, fa, a), (&mut mb, fb, b)] {
                            m.remove_triangle(f);
                            let t = s.tris[f];
                            m.add_triangle(t[0], t[1], t[2]);
                        }
                        let (o, on) = op_of(op);
                        let w = || format!("{} {} {on} of two cubes whose faces {fa} and {fb} were put back, moved by {off:?}/{k}", T::NAME, fr.name);
                        let r = match guarded(|| ma.corefine_and_boolean(&mut mb, o)) {
                            Ok(r) => r,
                            Err(e) => return fail("panic", format!("{}: {e}", w())),
                        };
                        c.call(5);
                        compare(&fr, &r, &g, &w, c)?;
                    }
                }
                Ok(())
            })
        }
        /// rings, tunnels, cavities against small blocks
        pub fn big_x(offs: Vec<I3>, k: i64) -> Family {
            let fr = frames().remove(0);
            let (sa, sb) = (big(k, false), blocks(2, 2, 1, k, true));
            family(format!("{}-big-{}", T::NAME, offs.len()), (sa.len() * sb.len() * offs.len()) as u64, move |i, c| {
                let mut d = Dec(i);
                let a = &sa[d.take(sa.len())];
                let b = &sb[d.take(sb.len())];
                let off = &offs[d.take(offs.len())];
                for op in 0..3 { one(&fr, a, b, off, k, op, c)?; }
                Ok(())
            })
        }
        /// long ones across each other
        pub fn long_x(n: i64, m: i64, offs: Vec<I3>, k: i64) -> Family {
            let fr = frames().remove(if T::EXACT { 1 } else { 0 });
            let (sa, sb) = (long(n, k), long(m, k));
            family(format!("{}-long-{n}-{m}-{}", T::NAME, offs.len()), (sa.len() * sb.len() * offs.len()) as u64, move |i, c| {
                let mut d = Dec(i);
                let a = &sa[d.take(sa.len())];
                let b = &sb[d.take(sb.len())];
                let off = &offs[d.take(offs.len())];
                for op in 0..3 { one(&fr, a, b, off, k, op, c)?; }
                Ok(())
            })
        }
        /// three blocks, one operation after the other
        pub fn chains(na: [i64; 3], offs: Vec<I3>, k: i64, fr: usize) -> Family {
            let fr = frames().remove(fr);
            let sa = blocks(na[0], na[1], na[2], k, false);
            let sb = blocks(1, 1, 1, k, true);
            let sc = blocks(1, 1, 1, k, false);
            family(format!("{}-chains-{na:?}-{}", T::NAME, offs.len()).replace(['[', ']', ' '], "").replace(',', "x"), (sa.len() * offs.len()) as u64, move |i, c| {
                let mut d = Dec(i);
                let a = &sa[d.take(sa.len())];
                let o1 = offs[d.take(offs.len())];
                for o2 in &offs {
                    for op in 0..9 {
                        chain(&fr, a, &[(&sb[0], o1, op / 3), (&sc[0], *o2, op % 3)], k, c)?;
                    }
                }
                Ok(())
            })
        }
        pub fn blocks_x(na: [i64; 3], nb: [i64; 3], offs: Vec<I3>, k: i64, nf: Vec<usize>) -> Family {
            let frs: Vec<Frame> = nf.iter().map(|i| frames().remove(*i)).filter(|f| T::EXACT || f.dyadic).collect();
            let sa = blocks(na[0], na[1], na[2], k, false);
            let sb = blocks(nb[0], nb[1], nb[2], k, true);
            family(format!("{}-blocks-{na:?}-{nb:?}-{}", T::NAME, offs.len()).replace(['[', ']', ' '], "").replace(',', "x"), (frs.len() * sa.len() * sb.len() * offs.len()) as u64, move |i, c| {
                let mut d = Dec(i);
                let fr = &frs[d.take(frs.len())];
                let a = &sa[d.take(sa.len())];
                let b = &sb[d.take(sb.len())];
                let off = &offs[d.take(offs.len())];
                for op in 0..3 { one(fr, a, b, off, k, op, c)?; }
                Ok(())
            })
        }
    }
}

fn main() {
    let th = thorough();
    let k = 12;
    let cross = |v: &[i64]| -> Vec<I3> { v.iter().flat_map(|x| v.iter().flat_map(move |y| v.iter().map(move |z| [*x, *y, *z]))).collect() };
    // nothing in a common plane
    let apart: Vec<I3> = cross(&[-2, -1, 0, 1]).into_iter().map(|[x, y, z]| [x * 12 + 2, y * 12 + 5, z * 12 + 9]).collect();
    let all: Vec<i64> = (-13..=13).collect();
    let some = [-12, -7, 0, 6, 12];
    let mut f = vec![
        sf::d::blocks_x([1, 1, 1], [1, 1, 1], cross(&all), k, vec![0]),
        sr::d::blocks_x([1, 1, 1], [1, 1, 1], cross(&some), k, vec![1, 5]),
        sl::d::blocks_x([1, 1, 1], [1, 1, 1], cross(&some), k, vec![1]),
        sf::d::blocks_x([2, 2, 1], [2, 2, 1], apart, k, vec![0]),
        sf::d::blocks_x([2, 2, 1], [2, 1, 2], cross(&[-12, 0, 5]), k, vec![3]),
        sf::d::blocks_x([2, 2, 2], [2, 2, 1], vec![[5, 3, 7], [0, 6, 0]], k, vec![0]),
        sf::d::big_x(vec![[5, 3, 7], [12, 6, 0], [14, 15, -5], [9, 14, 3]], k),
        sf::d::long_x(5, 3, vec![[5, 3, 7], [0, 6, 0], [-3, 14, 5]], k),
        sr::d::long_x(3, 2, vec![[5, 3, 7], [0, 6, 0]], k),
        sf::d::chains([1, 1, 1], cross(&[-6, 0, 5]), k, 0),
        sr::d::chains([1, 1, 1], cross(&[-6, 5]), k, 1),
        sl::d::chains([1, 1, 1], cross(&[0, 5]), k, 1),
        sf::d::edited(cross(&[-6, 0, 5]), k, 0),
        sr::d::edited(cross(&[-6, 5]), k, 1),
        sf::d::tets_x([2, 2, 3], [2, 2, 2], 6, [0, 0, 0], 0),
        sf::d::tets_x([2, 2, 3], [2, 2, 2], 6, [3, 2, 1], 3),
        sr::d::tets_x([2, 2, 2], [2, 2, 2], 6, [0, 0, 0], 1),
        sr::d::tets_x([2, 2, 2], [2, 2, 2], 6, [3, 3, 0], 5),
        sr::d::tets_x([2, 2, 2], [2, 2, 2], 6, [3, 3, 3], 4),
        sr::d::tets_x([2, 2, 2], [2, 2, 2], 6, [1, 2, 3], 1),
        sl::d::tets_x([2, 2, 2], [2, 2, 2], 6, [0, 0, 3], 1),
    ];
    if th {
        f.push(sr::d::blocks_x([1, 1, 1], [1, 1, 1], cross(&all), k, vec![1]));
        f.push(sf::d::blocks_x([2, 2, 2], [2, 2, 2], vec![[0, 0, 0], [12, 0, 0], [5, 0, 0], [5, 3, 7], [-6, 6, 6]], k, vec![0]));
        f.push(sf::d::tets_x([2, 2, 3], [2, 2, 3], 6, [3, 2, 1], 0));
        f.push(sf::d::tets_x([2, 2, 3], [2, 2, 3], 6, [0, 0, 0], 0));
        f.push(sr::d::tets_x([2, 2, 3], [2, 2, 2], 6, [3, 2, 1], 1));
        f.push(sl::d::tets_x([2, 2, 2], [2, 3, 2], 6, [3, 0, 3], 1));
        f.push(sr::d::chains([2, 1, 1], cross(&[-6, 0, 5]), k, 1));
    }
    run_check(
        "C22",
        Opts {
            rule: "every pair of cell blocks and of lattice tetrahedra within the bounds, at every listed displacement, coplanar ones included, under all three operations, and every chain of two operations; the result is compared cell by cell, in area, volume and closedness".into(),
            assumptions: vec![
                "results whose surface is not a manifold (solids that only touch in a corner or along an edge) cannot be held by the mesh and are left out".into(),
                "differences of tetrahedra are compared in general position only".into(),
            ],
            ..Default::default()
        },
        f,
    )
}
