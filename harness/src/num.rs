//! Straight-line programs over scalars: enumeration, execution on the real
//! number types and evaluation by an independent rational oracle.

use cgar::numeric::cgar_f64::CgarF64;
use cgar::numeric::cgar_rational::CgarRational;
use cgar::numeric::lazy_exact::LazyExact;
use cgar::numeric::scalar::{FromRef, Scalar};
use rug::Rational;
use rug::ops::Pow;
use std::hash::{Hash, Hasher};

/// How a leaf is written down; every conversion path of the number types.
#[derive(Clone, Debug)]
pub enum Leaf {
    Int(i32),
    Float(f64),
    /// float through the float scalar, by value / by reference
    FloatScalar(f64),
    FloatRef(f64),
    Frac(i32, i32),
    /// big rational num/den, by value
    Big(&'static str),
    /// through the rational scalar, by reference
    BigRef(&'static str),
    Zero,
    One,
    Default,
}

pub fn parse_big(s: &str) -> Rational {
    // forms: "p/q", "2^k", "2^-k", "2^k+1", "fl(p/q)+ulp"
    if let Some(r) = s.strip_prefix("2^") {
        if let Some(k) = r.strip_suffix("+1") {
            return parse_big(&format!("2^{k}")) + 1u32;
        }
        let k: i32 = r.parse().unwrap();
        let two = rug::Integer::from(2u32).pow(k.unsigned_abs());
        return if k >= 0 {
            Rational::from(two)
        } else {
            Rational::from(two).recip()
        };
    }
    s.parse().unwrap()
}

impl Leaf {
    pub fn value(&self) -> Rational {
        match self {
            Leaf::Int(i) => Rational::from(*i),
            Leaf::Float(f) | Leaf::FloatScalar(f) | Leaf::FloatRef(f) => Rational::from_f64(*f).unwrap(),
            Leaf::Frac(a, b) => Rational::from((*a, *b)),
            Leaf::Big(s) | Leaf::BigRef(s) => parse_big(s),
            Leaf::Zero | Leaf::Default => Rational::new(),
            Leaf::One => Rational::from(1),
        }
    }
    pub fn build<T: Scalar>(&self) -> T {
        match self {
            Leaf::Int(i) => T::from(*i),
            Leaf::Float(f) => T::from(*f),
            Leaf::FloatScalar(f) => <T as From<CgarF64>>::from(CgarF64(*f)),
            Leaf::FloatRef(f) => <T as FromRef<CgarF64>>::from_ref(&CgarF64(*f)),
            Leaf::Frac(a, b) => T::from_num_den(*a, *b),
            Leaf::Big(s) => T::from(parse_big(s)),
            Leaf::BigRef(s) => <T as FromRef<CgarRational>>::from_ref(&CgarRational(parse_big(s))),
            Leaf::Zero => T::zero(),
            Leaf::One => T::one(),
            Leaf::Default => T::default(),
        }
    }
}

#[derive(Clone, Copy, Debug, PartialEq)]
pub enum Op {
    AddRef,
    SubRef,
    MulRef,
    DivRef,
    NegRef,
    AddOwn,
    SubOwn,
    MulOwn,
    DivOwn,
    NegOwn,
    AddAssign,
    SubAssign,
    Abs,
    Min,
    Max,
}
use Op::*;
pub const CORE: [Op; 5] = [AddRef, SubRef, MulRef, DivRef, NegRef];
pub const ALL: [Op; 15] = [
    AddRef, SubRef, MulRef, DivRef, NegRef, AddOwn, SubOwn, MulOwn, DivOwn, NegOwn, AddAssign, SubAssign, Abs,
    Min, Max,
];

impl Op {
    pub fn unary(self) -> bool {
        matches!(self, NegRef | NegOwn | Abs)
    }
    pub fn oracle(self, a: &Rational, b: &Rational) -> Option<Rational> {
        Some(match self {
            AddRef | AddOwn | AddAssign => Rational::from(a + b),
            SubRef | SubOwn | SubAssign => Rational::from(a - b),
            MulRef | MulOwn => Rational::from(a * b),
            DivRef | DivOwn => {
                if b.cmp0() == std::cmp::Ordering::Equal {
                    return None;
                }
                Rational::from(a / b)
            }
            NegRef | NegOwn => Rational::from(-a),
            Abs => a.clone().abs(),
            Min => {
                if a <= b {
                    a.clone()
                } else {
                    b.clone()
                }
            }
            Max => {
                if a >= b {
                    a.clone()
                } else {
                    b.clone()
                }
            }
        })
    }
}

macro_rules! exec_for {
    ($name:ident, $T:ty) => {
        pub fn $name(op: Op, a: &$T, b: &$T) -> $T {
            match op {
                AddRef => a + b,
                SubRef => a - b,
                MulRef => a * b,
                DivRef => a / b,
                NegRef => -a,
                AddOwn => a.clone() + b.clone(),
                SubOwn => a.clone() - b.clone(),
                MulOwn => a.clone() * b.clone(),
                DivOwn => a.clone() / b.clone(),
                NegOwn => -a.clone(),
                AddAssign => {
                    let mut x = a.clone();
                    x += b;
                    x
                }
                SubAssign => {
                    let mut x = a.clone();
                    x -= b;
                    x
                }
                Abs => <$T as cgar::operations::Abs>::abs(a),
                Min => <$T as Scalar>::min(a.clone(), b.clone()),
                Max => <$T as Scalar>::max(a.clone(), b.clone()),
            }
        }
    };
}

exec_for!(exec_lazy, LazyExact);
exec_for!(exec_rat, CgarRational);
exec_for!(exec_f64, CgarF64);

/// Observations that fill caches of a lazily evaluated number.
#[derive(Clone, Copy, Debug, PartialEq)]
pub enum Query {
    None,
    Exact,
    Sign,
    Interval,
    Hash,
    Approx,
}

pub fn query(q: Query, x: &LazyExact) {
    match q {
        Query::None => {}
        Query::Exact => {
            x.exact();
        }
        Query::Sign => {
            x.sign();
        }
        Query::Interval => {
            x.double_interval();
        }
        Query::Hash => {
            hash_of(x);
        }
        Query::Approx => {
            x.as_f64_fast();
            x.approx();
        }
    }
}

/// FNV-1a over the byte stream a value feeds to its hasher.
pub struct Fnv(pub u64);
impl Hasher for Fnv {
    fn finish(&self) -> u64 {
        self.0
    }
    fn write(&mut self, b: &[u8]) {
        for x in b {
            self.0 = (self.0 ^ *x as u64).wrapping_mul(0x100000001b3);
        }
    }
}
pub fn hash_of<H: Hash>(x: &H) -> u64 {
    let mut h = Fnv(0xcbf29ce484222325);
    x.hash(&mut h);
    h.finish()
}

/// One step of a straight-line program: result of `op` on registers i, j is
/// appended as a new register, then observed by `q`.
#[derive(Clone, Copy, Debug)]
pub struct Step {
    pub op: Op,
    pub i: usize,
    pub j: usize,
    pub q: Query,
}

/// All steps over `regs` registers, simplest first.  Unary operations are
/// listed once per operand.
pub fn steps(ops: &[Op], regs: usize, qs: &[Query]) -> Vec<Step> {
    let mut v = vec![];
    for &op in ops {
        for i in 0..regs {
            for j in 0..regs {
                if op.unary() && j != 0 {
                    continue;
                }
                for &q in qs {
                    v.push(Step { op, i, j, q });
                }
            }
        }
    }
    v
}

pub fn show(leaves: &[Leaf], prog: &[Step]) -> String {
    let mut s = format!("{:?}", leaves);
    for (k, p) in prog.iter().enumerate() {
        s += &format!("; r{}={:?}(r{},r{})", leaves.len() + k, p.op, p.i, p.j);
        if p.q != Query::None {
            s += &format!("?{:?}", p.q);
        }
    }
    s
}
