//! Solids made of unit cells, and tetrahedra, as closed lattice surfaces: the oracle for inside and
//! outside is plain cell membership or four signed volumes.
use crate::geo::*;
use crate::mesh::*;
use std::collections::{BTreeMap, BTreeSet};

pub struct Solid {
    pub name: String,
    pub pts: Vec<I3>,
    pub tris: Vec<Tri>,
    pub cells: BTreeSet<I3>,
}

/// the outer surface of a set of unit cells, coordinates times `k`; None if it pinches
pub fn voxels(name: &str, cells: &BTreeSet<I3>, k: i64, diag: bool) -> Option<Solid> {
    let mut id: BTreeMap<I3, usize> = BTreeMap::new();
    let mut pts = vec![];
    let mut tris = vec![];
    for c in cells {
        for ax in 0..3 {
            for side in 0..2 {
                let mut o = *c;
                o[ax] += if side == 1 { 1 } else { -1 };
                if cells.contains(&o) {
                    continue;
                }
                let (u, v) = ((ax + 1) % 3, (ax + 2) % 3);
                let q: Vec<usize> = [(0, 0), (1, 0), (1, 1), (0, 1)]
                    .iter()
                    .map(|(a, b)| {
                        let mut p = *c;
                        p[ax] += side;
                        p[u] += a;
                        p[v] += b;
                        for x in p.iter_mut() {
                            *x *= k;
                        }
                        *id.entry(p).or_insert_with(|| {
                            pts.push(p);
                            pts.len() - 1
                        })
                    })
                    .collect();
                let q = if side == 1 { q } else { vec![q[0], q[3], q[2], q[1]] };
                // which diagonal: by the parity of the square or always the first one
                if diag && (c[0] + c[1] + c[2]) % 2 != 0 {
                    tris.push([q[1], q[2], q[3]]);
                    tris.push([q[1], q[3], q[0]]);
                } else {
                    tris.push([q[0], q[1], q[2]]);
                    tris.push([q[0], q[2], q[3]]);
                }
            }
        }
    }
    let mut seen = BTreeSet::new();
    if tris.iter().flat_map(|t| dirs(*t)).any(|d| !seen.insert(d)) {
        return None;
    }
    let s = Soup { tris: tris.iter().copied().enumerate().collect() };
    if !s.closed() || !s.manifold_vertices() {
        return None;
    }
    Some(Solid { name: name.into(), pts, tris, cells: cells.clone() })
}

/// every manifold set of cells of an a x b x c block
pub fn blocks(a: i64, b: i64, c: i64, k: i64, diag: bool) -> Vec<Solid> {
    let all: Vec<I3> = (0..a).flat_map(|x| (0..b).flat_map(move |y| (0..c).map(move |z| [x, y, z]))).collect();
    (1u64..1 << all.len())
        .filter_map(|m| {
            let cells: BTreeSet<I3> = all.iter().enumerate().filter(|(i, _)| m >> i & 1 == 1).map(|x| *x.1).collect();
            voxels(&format!("block {a}x{b}x{c}/{m:x}"), &cells, k, diag)
        })
        .collect()
}

/// a few bigger ones with notches, tunnels and a cavity
pub fn big(k: i64, diag: bool) -> Vec<Solid> {
    let cube3 = || (0..27).map(|i| [i % 3, i / 3 % 3, i / 9]).collect::<BTreeSet<I3>>();
    let without = |r: &[I3]| {
        let mut s = cube3();
        for x in r {
            s.remove(x);
        }
        s
    };
    let mut out = vec![];
    let mut add = |n: &str, s: BTreeSet<I3>| out.push(voxels(n, &s, k, diag).unwrap_or_else(|| panic!("{n} pinches")));
    add("hollow cube", without(&[[1, 1, 1]]));
    add("cup", without(&[[1, 1, 1], [1, 1, 2]]));
    add("tunnel", without(&[[1, 1, 0], [1, 1, 1], [1, 1, 2]]));
    add("ring", cube3().into_iter().filter(|p| p[2] == 1 && !(p[0] == 1 && p[1] == 1)).collect());
    add("cross", cube3().into_iter().filter(|p| p.iter().filter(|x| **x == 1).count() >= 2).collect());
    add("frame", cube3().into_iter().filter(|p| p.iter().filter(|x| **x == 1).count() <= 1).collect());
    add("two bars", cube3().into_iter().filter(|p| p[0] != 1 && p[1] == 0).collect());
    out
}

/// bars, combs and stairs of every length
pub fn long(max: i64, k: i64) -> Vec<Solid> {
    let mut out = vec![];
    for n in 1..=max {
        for diag in [false, true] {
            let bar: BTreeSet<I3> = (0..n).map(|x| [x, 0, 0]).collect();
            let comb = (0..2 * n - 1).map(|x| [x, 0, 0]).chain((0..n).map(|x| [2 * x, 1, 0])).collect();
            let stairs = (0..n).flat_map(|x| [[x, x, 0], [x + 1, x, 0]]).collect();
            for (name, cells) in [("bar", bar), ("comb", comb), ("stairs", stairs)] {
                out.extend(voxels(&format!("{name} {n}{}", if diag { " other diagonals" } else { "" }), &cells, k, diag));
            }
        }
    }
    out
}

impl Solid {
    /// 1 inside, 0 on the surface, -1 outside, at a point given in the scaled coordinates
    pub fn side(&self, p: &I3, k: i64) -> i32 {
        let opts: Vec<Vec<i64>> = p
            .iter()
            .map(|x| if x.rem_euclid(k) == 0 { vec![x.div_euclid(k) - 1, x.div_euclid(k)] } else { vec![x.div_euclid(k)] })
            .collect();
        let (mut ins, mut all) = (0, 0);
        for &x in &opts[0] {
            for &y in &opts[1] {
                for &z in &opts[2] {
                    all += 1;
                    ins += self.cells.contains(&[x, y, z]) as i32;
                }
            }
        }
        if ins == all {
            1
        } else if ins == 0 {
            -1
        } else {
            0
        }
    }
}

/// side of a point of a tetrahedron: 1 inside, 0 on its surface, -1 outside
pub fn tet_side(t: &[I3; 4], p: &I3) -> i32 {
    let vol = |a: &I3, b: &I3, c: &I3, d: &I3| dot(&cross3(&sub(b, a), &sub(c, a)), &sub(d, a)).signum();
    let w = vol(&t[0], &t[1], &t[2], &t[3]);
    let s = [
        vol(p, &t[1], &t[2], &t[3]) * w,
        vol(&t[0], p, &t[2], &t[3]) * w,
        vol(&t[0], &t[1], p, &t[3]) * w,
        vol(&t[0], &t[1], &t[2], p) * w,
    ];
    if s.iter().any(|x| *x < 0) {
        -1
    } else if s.iter().any(|x| *x == 0) {
        0
    } else {
        1
    }
}
/// its outward triangles
pub fn tet_tris(t: &[I3; 4]) -> Option<Vec<Tri>> {
    let v = dot(&cross3(&sub(&t[1], &t[0]), &sub(&t[2], &t[0])), &sub(&t[3], &t[0]));
    let f = vec![[0, 2, 1], [0, 1, 3], [1, 2, 3], [2, 0, 3]];
    match v.signum() {
        0 => None,
        1 => Some(f),
        _ => Some(f.into_iter().map(flip).collect()),
    }
}
