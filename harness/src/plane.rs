//! Integer oracles for triangulations of lattice points in the plane.
use crate::geo::*;
use crate::mesh::Tri;
use std::collections::{BTreeMap, BTreeSet};

pub fn area2(a: &I2, b: &I2, c: &I2) -> i64 {
    (b[0] - a[0]) * (c[1] - a[1]) - (b[1] - a[1]) * (c[0] - a[0])
}
/// > 0: d strictly inside the circle through the counter-clockwise a, b, c
pub fn incircle_i(a: &I2, b: &I2, c: &I2, d: &I2) -> i128 {
    let r = |p: &I2| {
        let (x, y) = ((p[0] - d[0]) as i128, (p[1] - d[1]) as i128);
        (x, y, x * x + y * y)
    };
    let (a, b, c) = (r(a), r(b), r(c));
    a.0 * (b.1 * c.2 - b.2 * c.1) - a.1 * (b.0 * c.2 - b.2 * c.0) + a.2 * (b.0 * c.1 - b.1 * c.0)
}
/// doubled area of the convex hull
pub fn hull2(pts: &[I2]) -> i64 {
    let p: Vec<I2> = pts.iter().copied().collect::<BTreeSet<_>>().into_iter().collect();
    if p.len() < 3 {
        return 0;
    }
    let half = |it: &mut dyn Iterator<Item = &I2>| {
        let mut h: Vec<I2> = vec![];
        for q in it {
            while h.len() >= 2 && area2(&h[h.len() - 2], &h[h.len() - 1], q) <= 0 {
                h.pop();
            }
            h.push(*q);
        }
        h
    };
    let mut h = half(&mut p.iter());
    h.pop();
    let mut u = half(&mut p.iter().rev());
    u.pop();
    h.extend(u);
    (0..h.len()).map(|i| area2(&h[0], &h[i], &h[(i + 1) % h.len()])).sum()
}
/// the interiors of two counter-clockwise triangles meet
pub fn overlap(s: &[I2; 3], t: &[I2; 3]) -> bool {
    let cut = |s: &[I2; 3], t: &[I2; 3]| (0..3).any(|i| t.iter().all(|q| area2(&s[i], &s[(i + 1) % 3], q) <= 0));
    !cut(s, t) && !cut(t, s)
}
/// two segments cross in a single point inside both
pub fn cross(a: &I2, b: &I2, c: &I2, d: &I2) -> bool {
    area2(a, b, c).signum() * area2(a, b, d).signum() < 0 && area2(c, d, a).signum() * area2(c, d, b).signum() < 0
}
/// p strictly between a and b
pub fn between(p: &I2, a: &I2, b: &I2) -> bool {
    area2(a, b, p) == 0 && p != a && p != b && (p[0] - a[0]) * (p[0] - b[0]) + (p[1] - a[1]) * (p[1] - b[1]) < 0
}

/// A triangulation of all the points that fills their hull: counter-clockwise (in the lattice times
/// `or`), no overlaps, nothing left out. Equal points count as one.
pub fn triangulates(pts: &[I2], tris: &[Tri], or: i64) -> Result<(), (&'static str, String)> {
    let mut sum = 0;
    let mut dir: BTreeMap<(I2, I2), usize> = BTreeMap::new();
    let mut used: BTreeSet<I2> = BTreeSet::new();
    let mut geo: Vec<[I2; 3]> = vec![];
    for t in tris {
        if t.iter().any(|v| *v >= pts.len()) {
            return Err(("index", format!("triangle {t:?} names no point")));
        }
        let mut g = t.map(|v| pts[v]);
        let a = area2(&g[0], &g[1], &g[2]) * or;
        if a == 0 {
            return Err(("flat", format!("triangle {g:?} has no area")));
        }
        if a < 0 {
            return Err(("clockwise", format!("triangle {g:?} runs clockwise")));
        }
        if or < 0 {
            g.swap(1, 2);
        }
        sum += a;
        for i in 0..3 {
            *dir.entry((g[i], g[(i + 1) % 3])).or_default() += 1;
        }
        used.extend(g);
        geo.push(g);
    }
    if let Some((e, _)) = dir.iter().find(|x| *x.1 > 1) {
        return Err(("edge-twice", format!("two triangles lie on the same side of {e:?}")));
    }
    for i in 0..geo.len() {
        for j in i + 1..geo.len() {
            if overlap(&geo[i], &geo[j]) {
                return Err(("overlap", format!("triangles {:?} and {:?} overlap", geo[i], geo[j])));
            }
        }
    }
    let h = hull2(pts);
    if sum != h {
        return Err(("hole", format!("the triangles cover {sum} of the hull's doubled area {h}")));
    }
    if h > 0 {
        if let Some(p) = pts.iter().find(|p| !used.contains(*p)) {
            return Err(("left-out", format!("point {p:?} is in no triangle")));
        }
    }
    Ok(())
}
/// no point inside the circle of any triangle
pub fn empty_circles(pts: &[I2], tris: &[Tri], or: i64) -> Result<(), (&'static str, String)> {
    for t in tris {
        let mut g = t.map(|v| pts[v]);
        if or < 0 {
            g.swap(1, 2);
        }
        if let Some(p) = pts.iter().find(|p| incircle_i(&g[0], &g[1], &g[2], p) > 0) {
            return Err(("circle", format!("{p:?} lies inside the circle of {g:?}")));
        }
    }
    Ok(())
}
