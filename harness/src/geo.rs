//! Integer lattice geometry (the oracle side) and affine frames that carry lattice
//! points into every scalar type of the library.
use cgar::geometry::point::Point;
use cgar::numeric::cgar_f64::CgarF64;
use cgar::numeric::cgar_rational::CgarRational;
use cgar::numeric::lazy_exact::LazyExact;
use cgar::numeric::scalar::Scalar;
use rug::Rational;

/// coordinate = s * k + off[axis]
pub struct Frame {
    pub name: &'static str,
    pub s: Rational,
    pub off: [Rational; 4],
    /// doubles represent every lattice image exactly
    pub dyadic: bool,
    /// far outside what doubles can resolve: exact scalars only
    pub exact_only: bool,
}

fn q(n: i64, d: i64) -> Rational {
    Rational::from((n, d))
}

/// The frames whose features stay far above the library's tolerances.
pub fn frames() -> Vec<Frame> {
    let z = || [q(0, 1), q(0, 1), q(0, 1), q(0, 1)];
    vec![
        Frame { name: "unit", s: q(1, 1), off: z(), dyadic: true, exact_only: false },
        Frame {
            name: "third",
            s: q(1, 3),
            off: [q(1, 7), q(-2, 5), q(3, 11), q(5, 13)],
            dyadic: false,
            exact_only: false,
        },
        Frame {
            name: "large",
            s: q(4096, 1),
            off: [q(-5000, 1), q(12345, 1), q(9, 1), q(77, 1)],
            dyadic: true,
            exact_only: false,
        },
        Frame {
            name: "mirror",
            s: q(-1, 8),
            off: [q(1, 2), q(3, 1), q(-7, 4), q(0, 1)],
            dyadic: true,
            exact_only: false,
        },
        Frame {
            name: "huge",
            s: q(1000003, 7),
            off: [q(1000000007, 1), q(-1000000009, 1), q(998244353, 1), q(17, 1)],
            dyadic: false,
            exact_only: true,
        },
        // beyond every fixed-width integer and beyond what doubles resolve
        Frame {
            name: "giant",
            s: q(1000003, 7) << 70,
            off: [q(1000000007, 1) << 70, q(-1000000009, 1) << 70, q(998244353, 1) << 70, q(17, 1)],
            dyadic: false,
            exact_only: true,
        },
    ]
}

/// Features far below every tolerance: only decisions documented as exact are checked here.
pub fn tiny() -> Frame {
    Frame {
        name: "tiny",
        s: Rational::from((1i64, 3i64 << 40)),
        off: [q(1, 1), q(1, 3), q(-1, 1), q(2, 1)],
        dyadic: false,
        exact_only: true,
    }
}

/// Coordinates and steps beyond the largest double: only exact numbers can hold them.
pub fn beyond() -> Frame {
    Frame {
        name: "beyond",
        s: q(1000003, 7) << 1100,
        off: [q(1000000007, 1) << 1100, q(-1000000009, 1) << 1100, q(998244353, 1) << 1100, q(17, 1)],
        dyadic: false,
        exact_only: true,
    }
}

impl Frame {
    pub fn q(&self, axis: usize, k: i64) -> Rational {
        Rational::from(&self.s * k) + &self.off[axis]
    }
    /// image of a lattice-space rational
    pub fn qr(&self, axis: usize, k: &Rational) -> Rational {
        Rational::from(&self.s * k) + &self.off[axis]
    }
    /// s^n * v : how an n-linear determinant transforms
    pub fn det(&self, n: u32, v: i128) -> Rational {
        let mut r = Rational::from(v);
        for _ in 0..n {
            r *= &self.s;
        }
        r
    }
    /// sign of an n-linear determinant whose lattice value has sign `sg`
    pub fn sign(&self, n: u32, sg: i32) -> i32 {
        if self.s < 0 && n % 2 == 1 { -sg } else { sg }
    }
}

pub trait Sc: Scalar + 'static {
    const EXACT: bool;
    const NAME: &'static str;
    fn of(v: &Rational) -> Self;
    fn at(f: &Frame, axis: usize, k: i64) -> Self;
    /// exact value; None for NaN or infinite doubles
    fn val(&self) -> Option<Rational>;
}

impl Sc for CgarF64 {
    const EXACT: bool = false;
    const NAME: &'static str = "f64";
    fn of(v: &Rational) -> Self {
        CgarF64(v.to_f64())
    }
    fn at(f: &Frame, axis: usize, k: i64) -> Self {
        CgarF64(f.q(axis, k).to_f64())
    }
    fn val(&self) -> Option<Rational> {
        Rational::from_f64(self.0)
    }
}

impl Sc for CgarRational {
    const EXACT: bool = true;
    const NAME: &'static str = "rational";
    fn of(v: &Rational) -> Self {
        CgarRational(v.clone())
    }
    fn at(f: &Frame, axis: usize, k: i64) -> Self {
        CgarRational(f.q(axis, k))
    }
    fn val(&self) -> Option<Rational> {
        Some(self.0.clone())
    }
}

impl Sc for LazyExact {
    const EXACT: bool = true;
    const NAME: &'static str = "lazy";
    fn of(v: &Rational) -> Self {
        LazyExact::from(CgarRational(v.clone()))
    }
    /// plain double leaves in the unit frame, unevaluated expressions elsewhere
    fn at(f: &Frame, axis: usize, k: i64) -> Self {
        if f.name == "unit" {
            LazyExact::from(k as f64)
        } else {
            let s = Self::of(&f.s);
            let k = LazyExact::from(k as f64);
            let o = Self::of(&f.off[axis]);
            &(&s * &k) + &o
        }
    }
    fn val(&self) -> Option<Rational> {
        Some(self.exact().0)
    }
}

pub fn pt<T: Sc, const N: usize>(f: &Frame, v: &[i64; N]) -> Point<T, N> {
    Point { coords: std::array::from_fn(|i| T::at(f, i, v[i])) }
}

pub fn sgn_q(v: &Rational) -> i32 {
    match v.cmp0() {
        std::cmp::Ordering::Less => -1,
        std::cmp::Ordering::Equal => 0,
        std::cmp::Ordering::Greater => 1,
    }
}

/// nearest double, NaN if there is no value
pub fn fl<T: Sc>(v: &T) -> f64 {
    v.val().map(|x| x.to_f64()).unwrap_or(f64::NAN)
}

pub fn sgn_i(v: i128) -> i32 {
    v.signum() as i32
}

/// sign of a library scalar decided from its exact value, with the library's own zero band for
/// doubles
pub fn sgn<T: Sc>(v: &T) -> Option<i32> {
    let x = v.val()?;
    if !T::EXACT && x.to_f64().abs() <= 1e-10 {
        return Some(0);
    }
    Some(sgn_q(&x))
}

/// equality with the exact oracle value: exact scalars must match, doubles to rounding error
pub fn same<T: Sc>(v: &T, want: &Rational) -> bool {
    match v.val() {
        None => false,
        Some(x) => {
            if T::EXACT {
                x == *want
            } else {
                let w = want.to_f64();
                (x.to_f64() - w).abs() <= 1e-8 * w.abs().max(1.0)
            }
        }
    }
}

pub fn same_pt<T: Sc, const N: usize>(p: &Point<T, N>, want: &[Rational; N]) -> bool {
    (0..N).all(|i| same(&p.coords[i], &want[i]))
}

pub fn show_pt<T: Sc, const N: usize>(p: &Point<T, N>) -> String {
    let v: Vec<String> = p
        .coords
        .iter()
        .map(|c| c.val().map(|x| x.to_string()).unwrap_or("NaN".into()))
        .collect();
    format!("({})", v.join(","))
}

// ------------------------------------------------------------------ integer oracle

pub type I2 = [i64; 2];
pub type I3 = [i64; 3];

pub fn lat<const N: usize>(i: usize, n: usize, lo: i64) -> [i64; N] {
    let mut i = i;
    std::array::from_fn(|_| {
        let v = (i % n) as i64 + lo;
        i /= n;
        v
    })
}

pub fn sub<const N: usize>(a: &[i64; N], b: &[i64; N]) -> [i128; N] {
    std::array::from_fn(|i| a[i] as i128 - b[i] as i128)
}
pub fn dot<const N: usize>(a: &[i128; N], b: &[i128; N]) -> i128 {
    (0..N).map(|i| a[i] * b[i]).sum()
}
pub fn cross3(a: &[i128; 3], b: &[i128; 3]) -> [i128; 3] {
    [a[1] * b[2] - a[2] * b[1], a[2] * b[0] - a[0] * b[2], a[0] * b[1] - a[1] * b[0]]
}
pub fn up(a: &I2) -> I3 {
    [a[0], a[1], 0]
}

/// determinant by permutation expansion (independent of any elimination scheme)
pub fn det_perm(m: &[Vec<i128>]) -> i128 {
    fn go(m: &[Vec<i128>], row: usize, used: u32, perm: &mut Vec<usize>) -> i128 {
        let n = m.len();
        if row == n {
            let mut inv = 0;
            for i in 0..n {
                for j in i + 1..n {
                    if perm[i] > perm[j] {
                        inv += 1;
                    }
                }
            }
            let p: i128 = (0..n).map(|i| m[i][perm[i]]).product();
            return if inv % 2 == 0 { p } else { -p };
        }
        let mut s = 0;
        for c in 0..n {
            if used & (1 << c) == 0 && m[row][c] != 0 {
                perm.push(c);
                s += go(m, row + 1, used | 1 << c, perm);
                perm.pop();
            }
        }
        s
    }
    go(m, 0, 0, &mut vec![])
}

pub fn orient_i<const N: usize>(p: &[[i64; N]]) -> i128 {
    let m: Vec<Vec<i128>> = (1..=N).map(|r| sub(&p[r], &p[0]).to_vec()).collect();
    det_perm(&m)
}

pub fn collinear_i<const N: usize>(a: &[i64; N], b: &[i64; N], c: &[i64; N]) -> bool {
    let u = sub(b, a);
    let v = sub(c, a);
    (0..N).all(|i| (0..N).all(|j| u[i] * v[j] == u[j] * v[i]))
}

/// squared distance of p from segment ab as (num, den), and the line parameter (num, den) if a != b
pub fn seg_dist2<const N: usize>(p: &[i64; N], a: &[i64; N], b: &[i64; N]) -> (Rational, Option<Rational>) {
    let ab = sub(b, a);
    let ap = sub(p, a);
    let l2 = dot(&ab, &ab);
    let qi = |v: i128| Rational::from(v);
    if l2 == 0 {
        return (qi(dot(&ap, &ap)), None);
    }
    let u = Rational::from((dot(&ap, &ab), l2));
    let uc = if u < 0 {
        qi(0)
    } else if u > 1 {
        qi(1)
    } else {
        u.clone()
    };
    let mut d = qi(0);
    for i in 0..N {
        let c = Rational::from(&uc * qi(ab[i])) - qi(ap[i]);
        d += Rational::from(&c * &c);
    }
    (d, Some(u))
}

pub fn on_segment_i<const N: usize>(p: &[i64; N], a: &[i64; N], b: &[i64; N]) -> bool {
    collinear_i(p, a, b) && (0..N).all(|i| p[i] >= a[i].min(b[i]) && p[i] <= a[i].max(b[i]))
}

#[derive(Debug, Clone, PartialEq)]
pub enum SegX {
    None,
    Point([Rational; 3]),
    /// end points in lexicographic order
    Overlap(I3, I3),
}

/// exact intersection of closed segments (either may be a single point)
pub fn seg_seg_i(p1: &I3, p2: &I3, q1: &I3, q2: &I3) -> SegX {
    let d1 = sub(p2, p1);
    let d2 = sub(q2, q1);
    let w = sub(q1, p1);
    let n = cross3(&d1, &d2);
    let nn = dot(&n, &n);
    let qi = |v: i64| Rational::from(v);
    if nn != 0 {
        if dot(&w, &n) != 0 {
            return SegX::None;
        }
        let s = dot(&cross3(&w, &d2), &n);
        let t = dot(&cross3(&w, &d1), &n);
        if s < 0 || s > nn || t < 0 || t > nn {
            return SegX::None;
        }
        let s = Rational::from((s, nn));
        return SegX::Point(std::array::from_fn(|i| {
            qi(p1[i]) + Rational::from(&s * Rational::from(d1[i]))
        }));
    }
    // parallel or degenerate: candidate end points that lie on the other segment
    let mut c: Vec<I3> = vec![];
    for p in [p1, p2] {
        if on_segment_i(p, q1, q2) {
            c.push(*p);
        }
    }
    for p in [q1, q2] {
        if on_segment_i(p, p1, p2) {
            c.push(*p);
        }
    }
    c.sort();
    c.dedup();
    match c.len() {
        0 => SegX::None,
        1 => SegX::Point([qi(c[0][0]), qi(c[0][1]), qi(c[0][2])]),
        2 => SegX::Overlap(c[0], c[1]),
        _ => unreachable!(),
    }
}

#[derive(Debug, Clone, Copy, PartialEq, Eq)]
pub enum Loc {
    Off,
    Edge,
    Vertex,
    In,
    /// the triangle has no interior
    Degenerate,
}

/// location of a point of the triangle's plane
pub fn tri_loc_i(p: &I3, a: &I3, b: &I3, c: &I3) -> Loc {
    if collinear_i(a, b, c) {
        return Loc::Degenerate;
    }
    if p == a || p == b || p == c {
        return Loc::Vertex;
    }
    if on_segment_i(p, a, b) || on_segment_i(p, b, c) || on_segment_i(p, c, a) {
        return Loc::Edge;
    }
    let n = cross3(&sub(b, a), &sub(c, a));
    let side = |u: &I3, v: &I3| dot(&cross3(&sub(v, u), &sub(p, u)), &n) > 0;
    if side(a, b) && side(b, c) && side(c, a) { Loc::In } else { Loc::Off }
}

/// Instantiates the same items once per scalar type (modules `sf`, `sr`, `sl`, alias `T`).
#[macro_export]
macro_rules! per_scalar {
    ($($body:tt)*) => {
        #[allow(dead_code, unused_imports)]
        mod sf { use super::*; pub type T = cgar::numeric::cgar_f64::CgarF64; $($body)* }
        #[allow(dead_code, unused_imports)]
        mod sr { use super::*; pub type T = cgar::numeric::cgar_rational::CgarRational; $($body)* }
        #[allow(dead_code, unused_imports)]
        mod sl { use super::*; pub type T = cgar::numeric::lazy_exact::LazyExact; $($body)* }
    };
}
