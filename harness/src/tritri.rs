//! The exact common part of two lattice triangles, in integers.
use crate::geo::*;
use std::cmp::Ordering;

/// a rational point num / den with den > 0, in lowest terms
#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub struct H {
    pub n: [i128; 3],
    pub d: i128,
}
pub fn gcd(a: i128, b: i128) -> i128 {
    if b == 0 { a.abs() } else { gcd(b, a % b) }
}
pub fn h(n: [i128; 3], d: i128) -> H {
    let mut g = gcd(gcd(n[0], n[1]), gcd(n[2], d));
    if d < 0 {
        g = -g;
    }
    H { n: n.map(|x| x / g), d: d / g }
}
pub fn hi(p: &I3) -> H {
    H { n: p.map(|x| x as i128), d: 1 }
}
/// a + (b-a) * s/t
pub fn along(a: &H, b: &H, s: i128, t: i128) -> H {
    // common denominator a.d * b.d * t
    h(std::array::from_fn(|i| a.n[i] * b.d * (t - s) + b.n[i] * a.d * s), a.d * b.d * t)
}
pub fn plane(t: &[I3; 3]) -> ([i128; 3], i128) {
    let n = cross3(&sub(&t[1], &t[0]), &sub(&t[2], &t[0]));
    (n, -dot(&n, &t[0].map(|x| x as i128)))
}
/// n.p + d scaled by p.d (> 0)
pub fn side(p: &H, pl: &([i128; 3], i128)) -> i128 {
    dot(&pl.0, &p.n) + pl.1 * p.d
}

#[derive(Debug, Clone, PartialEq)]
pub enum Want {
    Empty,
    Point(H),
    Seg(H, H),
    Poly(Vec<H>),
}

/// clip a convex polygon (cyclic, coplanar with the plane) to side >= 0
pub fn clip(poly: &[H], pl: &([i128; 3], i128)) -> Vec<H> {
    let mut out: Vec<H> = vec![];
    let n = poly.len();
    for i in 0..n {
        let (a, b) = (&poly[i], &poly[(i + 1) % n]);
        let (sa, sb) = (side(a, pl), side(b, pl));
        if sa >= 0 {
            out.push(*a);
        }
        if (sa > 0 && sb < 0) || (sa < 0 && sb > 0) {
            // true distances are sa/a.d and sb/b.d: parameter sa*b.d / (sa*b.d - sb*a.d)
            let (x, y) = (sa * b.d, sb * a.d);
            let (s, t) = (x, x - y);
            out.push(along(a, b, if t < 0 { -s } else { s }, t.abs()));
        }
    }
    out.dedup();
    if out.len() > 1 && out[0] == out[out.len() - 1] {
        out.pop();
    }
    out
}

pub fn cross_h(a: &H, b: &H, c: &H) -> [i128; 3] {
    let u: [i128; 3] = std::array::from_fn(|i| b.n[i] * a.d - a.n[i] * b.d);
    let v: [i128; 3] = std::array::from_fn(|i| c.n[i] * a.d - a.n[i] * c.d);
    cross3(&u, &v)
}

pub fn truth(p: &[I3; 3], q: &[I3; 3]) -> Want {
    let (pp, pq) = (plane(p), plane(q));
    let sp = p.map(|v| side(&hi(&v), &pq));
    let sq = q.map(|v| side(&hi(&v), &pp));
    if sp == [0; 3] {
        // coplanar: clip p by the three planes through q's edges along the normal, inner side kept
        let mut poly: Vec<H> = p.iter().map(hi).collect();
        for i in 0..3 {
            let (a, b) = (&q[i], &q[(i + 1) % 3]);
            let n = cross3(&pq.0, &sub(b, a));
            let d = -dot(&n, &a.map(|x| x as i128));
            poly = clip(&poly, &(n, d));
        }
        // drop repeated and flat corners
        let mut u: Vec<H> = vec![];
        for v in poly {
            if !u.contains(&v) {
                u.push(v);
            }
        }
        if u.len() >= 3 {
            let m = u.len();
            let keep: Vec<H> = (0..m).filter(|&i| cross_h(&u[(i + m - 1) % m], &u[i], &u[(i + 1) % m]) != [0; 3]).map(|i| u[i]).collect();
            if keep.len() >= 3 {
                return Want::Poly(keep);
            }
            // flat: a segment, take the extreme pair
            let key = |a: &H, b: &H| (0..3).map(|i| (a.n[i] * b.d).cmp(&(b.n[i] * a.d))).find(|o| *o != Ordering::Equal).unwrap_or(Ordering::Equal);
            let lo = *u.iter().min_by(|a, b| key(a, b)).unwrap();
            let hi = *u.iter().max_by(|a, b| key(a, b)).unwrap();
            return Want::Seg(lo, hi);
        }
        return match u.len() {
            0 => Want::Empty,
            1 => Want::Point(u[0]),
            _ => Want::Seg(u[0], u[1]),
        };
    }
    let dir = cross3(&pp.0, &pq.0);
    if dir == [0; 3] {
        return Want::Empty; // parallel planes
    }
    let cut = |t: &[I3; 3], s: &[i128; 3]| -> Vec<H> {
        let mut v = vec![];
        for i in 0..3 {
            if s[i] == 0 {
                v.push(hi(&t[i]));
            }
            let j = (i + 1) % 3;
            if (s[i] > 0 && s[j] < 0) || (s[i] < 0 && s[j] > 0) {
                let d = s[i] - s[j];
                v.push(along(&hi(&t[i]), &hi(&t[j]), if d < 0 { -s[i] } else { s[i] }, d.abs()));
            }
        }
        v
    };
    let ord = |a: &H, b: &H| (dot(&dir, &a.n) * b.d).cmp(&(dot(&dir, &b.n) * a.d));
    let (mut a, mut b) = (cut(p, &sp), cut(q, &sq));
    if a.is_empty() || b.is_empty() {
        return Want::Empty;
    }
    a.sort_by(ord);
    b.sort_by(ord);
    let lo = if ord(&a[0], &b[0]) == Ordering::Less { b[0] } else { a[0] };
    let (ea, eb) = (a[a.len() - 1], b[b.len() - 1]);
    let hi = if ord(&ea, &eb) == Ordering::Greater { eb } else { ea };
    match ord(&lo, &hi) {
        Ordering::Greater => Want::Empty,
        Ordering::Equal => Want::Point(lo),
        Ordering::Less => Want::Seg(lo, hi),
    }
}

/// barycentric coordinates (times a positive common factor) of a point of the triangle's plane
pub fn bary(x: &H, t: &[I3; 3]) -> ([i128; 3], i128) {
    let n = plane(t).0;
    let w = |a: &I3, b: &I3| dot(&cross_h(x, &hi(a), &hi(b)), &n);
    // cross_h scales by x.d^2
    let v = [w(&t[1], &t[2]), w(&t[2], &t[0]), w(&t[0], &t[1])];
    (v, v[0] + v[1] + v[2])
}
