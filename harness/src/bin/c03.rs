//! C03: float enclosures and float images of exact numbers are sound.
use cgar::geometry::util::{f64_next_down, f64_next_up};
use cgar::numeric::ball::Ball;
use cgar::numeric::cgar_f64::CgarF64;
use cgar::numeric::cgar_rational::CgarRational;
use cgar::numeric::lazy_exact::LazyExact;
use cgar::numeric::scalar::Scalar;
use mc::engine::*;
use mc::ensure;
use mc::num::*;
use num_traits::ToPrimitive;
use rug::Rational;

fn leaves() -> Vec<Leaf> {
    use Leaf::*;
    vec![
        Zero,
        One,
        Int(-7),
        Frac(1, 3),
        Frac(-2, 7),
        Float(0.1),
        FloatRef(-0.3),
        Big("2^53+1"),
        Big("-1152921504606846977"),
        Float(1e-9),
        Float(1e200),
        Float(-1e-200),
        Float(5e-324),
        Big("2^-1100"),
        Big("2^900"),
    ]
}

/// lo <= v <= hi, infinities allowed as bounds
fn within(lo: f64, hi: f64, v: &Rational) -> bool {
    let l = lo == f64::NEG_INFINITY || (lo.is_finite() && Rational::from_f64(lo).unwrap() <= *v);
    let h = hi == f64::INFINITY || (hi.is_finite() && Rational::from_f64(hi).unwrap() >= *v);
    // NaN bounds promise nothing and are treated as "no enclosure"
    (l && h) || lo.is_nan() || hi.is_nan()
}

fn check_val(x: &LazyExact, v: &Rational) -> Result<&'static str, String> {
    if let Some((lo, hi)) = x.double_interval() {
        if !within(lo, hi, v) {
            return Err(format!("interval [{lo:e},{hi:e}] misses {}", v.to_f64()));
        }
    }
    let b = x.ball_ref();
    if b.r.is_finite() && b.m.is_finite() {
        let m = Rational::from_f64(b.m).unwrap();
        let r = Rational::from_f64(b.r).unwrap();
        let dist = Rational::from(v - &m).abs();
        if dist > r {
            return Err(format!("ball {:e}±{:e} misses {} by {:e}", b.m, b.r, v.to_f64(), (dist - r).to_f64()));
        }
    }
    if let Some(f) = x.as_f64_if_exact() {
        if *v != f {
            return Err(format!("called exactly {f:e}, is {}", v.to_f64()));
        }
    }
    let mut kind = "wide";
    let fast = |f: f64| -> Result<(), String> {
        if !f.is_finite() {
            return Ok(());
        }
        let d = Rational::from(v - Rational::from_f64(f).unwrap()).abs();
        let tol = Rational::from(v.abs_ref()) * Rational::from((1, 1_000_000_000i64)) + parse_big("2^-1070");
        if d > tol {
            return Err(format!("float image {f:e} is not close to {}", v.to_f64()));
        }
        Ok(())
    };
    if let Some(f) = x.as_f64_fast() {
        fast(f)?;
        kind = "tight";
    }
    let e = x.exact();
    // after exact evaluation the cheap image must still be close
    if let Some(f) = x.as_f64_fast() {
        fast(f)?;
    }
    if let Some(f) = x.to_f64() {
        fast(f)?;
    }
    if let Some((lo, hi)) = x.double_interval() {
        if !within(lo, hi, v) {
            return Err("interval after exact evaluation misses the value".into());
        }
    }
    if let Some((lo, hi)) = e.double_interval() {
        if !within(lo, hi, v) {
            return Err(format!("rational interval [{lo:e},{hi:e}] misses {}", v.to_f64()));
        }
    }
    fast(e.ball_center_f64())?;
    Ok(kind)
}

fn fam(name: &str, nleaves: usize, s1: Vec<Step>, s2: Vec<Step>, s3: Vec<Step>) -> Family {
    let ls = leaves();
    let lv: Vec<Rational> = ls.iter().map(|l| l.value()).collect();
    let nl = ls.len();
    let total = (nl as u64).pow(nleaves as u32) * s1.len() as u64;
    family(name, total, move |i, c| {
        let mut d = Dec(i);
        let st1 = s1[d.take(s1.len())];
        let ids: Vec<usize> = (0..nleaves).map(|_| d.take(nl)).collect();
        let l: Vec<Leaf> = ids.iter().map(|&k| ls[k].clone()).collect();
        c.sample(|| show(&l, &[st1]));
        let go = |prog: &[Step], c: &mut Ctx| -> Res {
            let mut regs: Vec<LazyExact> = l.iter().map(|l| l.build()).collect();
            let mut vals: Vec<Rational> = ids.iter().map(|&k| lv[k].clone()).collect();
            for s in prog {
                let Some(v) = s.op.oracle(&vals[s.i], &vals[s.j]) else { return Ok(()) };
                let r = exec_lazy(s.op, &regs[s.i], &regs[s.j]);
                query(s.q, &r);
                regs.push(r);
                vals.push(v);
            }
            c.case();
            c.call(prog.len() as u64 + 8);
            match check_val(regs.last().unwrap(), vals.last().unwrap()) {
                Ok(k) => {
                    c.hit(k);
                    Ok(())
                }
                Err(m) => fail(format!("enclosure {}", show(&l, prog)), m),
            }
        };
        go(&[st1], c)?;
        for a in &s2 {
            go(&[st1, *a], c)?;
            for b in &s3 {
                go(&[st1, *a, *b], c)?;
            }
            c.tick();
        }
        Ok(())
    })
}

fn fam_leaf() -> Family {
    let mut ls = leaves();
    ls.extend([Leaf::Int(i32::MIN), Leaf::Float(f64::MAX), Leaf::Float(-0.0), Leaf::Frac(i32::MAX, 3), Leaf::Big("2^1100"), Leaf::BigRef("2^-1074")]);
    let n = ls.len() as u64;
    family("leaves of all three types", n, move |i, c| {
        let l = &ls[i as usize];
        let v = l.value();
        c.case();
        c.call(6);
        let sig = format!("leaf {:?}", l);
        if let Err(m) = check_val(&l.build(), &v) {
            return fail(sig, m);
        }
        let r: CgarRational = l.build();
        if let Some((lo, hi)) = r.double_interval() {
            ensure!(within(lo, hi, &v), sig, "rational interval misses");
        }
        if let Leaf::Float(f) | Leaf::FloatRef(f) | Leaf::FloatScalar(f) = l {
            let x = CgarF64(*f);
            ensure!(x.double_interval() == Some((*f, *f)), sig, "float interval is not the float itself");
            ensure!(x.as_f64_fast() == Some(*f), sig, "float image is not the float itself");
            ensure!(x.ball_center_f64() == *f, sig, "float centre is not the float itself");
        }
        c.hit("leaf");
        Ok(())
    })
}

/// Balls on their own: every chain of two operations on balls around known values encloses the value of the chain.
fn fam_balls() -> Family {
    let ls = leaves();
    let n = ls.len();
    let vs: Vec<Rational> = ls.iter().map(|l| l.value()).collect();
    family("balls", (n * n * n * 25) as u64, move |i, c| {
        let mut d = Dec(i);
        let (o1, o2) = (d.take(5), d.take(5));
        let ix = [d.take(n), d.take(n), d.take(n)];
        let op = |k: usize, a: (Ball, Rational), b: (Ball, Rational)| -> Option<(Ball, Rational)> {
            Some(match k {
                0 => (a.0.add(b.0), a.1 + b.1),
                1 => (a.0.sub(b.0), a.1 - b.1),
                2 => (a.0.mul(b.0), a.1 * b.1),
                3 => (a.0.neg(), -a.1),
                _ => {
                    if b.1.cmp0() == std::cmp::Ordering::Equal {
                        return None;
                    }
                    (a.0.div(b.0), a.1 / b.1)
                }
            })
        };
        let leaf = |k: usize| -> (Ball, Rational) {
            let b = match &ls[ix[k]] {
                Leaf::Float(f) | Leaf::FloatRef(f) => Ball::from_f64(*f),
                _ => Ball::from_rational(&vs[ix[k]]),
            };
            (b, vs[ix[k]].clone())
        };
        let sig = || format!("ball {:?} {:?} {:?} {o1} {o2}", ls[ix[0]], ls[ix[1]], ls[ix[2]]);
        let look = |(b, v): &(Ball, Rational), c: &mut Ctx| -> Res {
            if let (Some(m), Some(r)) = (Rational::from_f64(b.m), Rational::from_f64(b.r)) {
                ensure!(Rational::from(v - m).abs() <= r, sig(), "{:e} +- {:e} misses {}", b.m, b.r, v.to_f64());
                c.hit("finite ball");
            } else {
                c.hit("no ball");
            }
            if let Some(s) = b.sign_if_certain() {
                ensure!(s as i32 == v.cmp0() as i32, sig(), "{:e} +- {:e} certain of sign {s}, value {}", b.m, b.r, v.to_f64());
                c.hit("certain sign");
            }
            Ok(())
        };
        c.case();
        c.call(2);
        ensure!(Ball::unknown().sign_if_certain().is_none(), "ball unknown", "an unknown ball has a sign");
        look(&leaf(0), c)?;
        let Some(x) = op(o1, leaf(0), leaf(1)) else { return Ok(()) };
        look(&x, c)?;
        let Some(y) = op(o2, x.clone(), leaf(2)) else { return Ok(()) };
        look(&y, c)?;
        let Some(z) = op(o2, leaf(2), x) else { return Ok(()) };
        look(&z, c)
    })
}

/// Balls of every width, up to ones that nearly reach or contain zero: whatever two values lie in the operands (taken at
/// both ends, in the middle and just off the ends), the result contains their sum, difference, product and quotient.
fn fam_wide() -> Family {
    let mut bs: Vec<Ball> = vec![];
    for m in [0.0, 1.0, -1.0, 3.0, -0.1, 0.7, 1e-9, -1e12, 1e150, -1e-150] {
        for w in [0.0, 2f64.powi(-50), 2f64.powi(-20), 0.1, 0.5, 0.75, 0.99, 1.0 - 2f64.powi(-20), 1.0, 1.5, 1e3] {
            bs.push(Ball { m, r: if m == 0.0 { w } else { w * m.abs() } });
        }
    }
    let n = bs.len();
    // a part in 2^40 off the ends, so that rounding of the radius itself does not matter
    let ends: Vec<Rational> = {
        let e = Rational::from(1) - (Rational::from(1) >> 40u32);
        vec![-e.clone(), Rational::from((-1, 2)), Rational::new(), Rational::from((1, 2)), e]
    };
    family("wide balls", (n * n) as u64, move |i, c| {
        let mut d = Dec(i);
        let (x, y) = (bs[d.take(n)], bs[d.take(n)]);
        let q = |b: &Ball, e: &Rational| Rational::from_f64(b.m).unwrap() + Rational::from_f64(b.r).unwrap() * e;
        c.case();
        c.call(5);
        let outs = [x.add(y), x.sub(y), x.mul(y), x.div(y), x.neg()];
        for ex in &ends {
            for ey in &ends {
                let (a, b) = (q(&x, ex), q(&y, ey));
                for (k, o) in outs.iter().enumerate() {
                    let v = match k {
                        0 => Rational::from(&a + &b),
                        1 => Rational::from(&a - &b),
                        2 => Rational::from(&a * &b),
                        3 if b == 0 => continue,
                        3 => Rational::from(&a / &b),
                        _ => Rational::from(-&a),
                    };
                    let (Some(m), Some(r)) = (Rational::from_f64(o.m), Rational::from_f64(o.r)) else {
                        c.hit("no ball");
                        continue;
                    };
                    ensure!(Rational::from(&v - m).abs() <= r, format!("wide {x:?} {y:?} op {k}"), "{o:?} misses {:e} of {:e} and {:e}", v.to_f64(), a.to_f64(), b.to_f64());
                    c.hit("contained");
                }
            }
        }
        Ok(())
    })
}

/// Quotients by differences of only a few units in the last place, whose balls are about as wide as they are far from zero.
fn fam_close() -> Family {
    let fr: Vec<Rational> = [(1, 3), (-2, 7), (1, 10), (22, 7), (1000, 999)].iter().map(|&p| Rational::from(p)).collect();
    let k = 33usize;
    let n = fr.len();
    family("quotients by close differences", (n * n * k * 4) as u64, move |i, c| {
        let mut d = Dec(i);
        let (p, num) = (fr[d.take(n)].clone(), fr[d.take(n)].clone());
        let ulps = d.take(k) as i64 - 16;
        let form = d.take(4);
        let near = f64::from_bits((p.to_f64().to_bits() as i64 + ulps) as u64);
        // p rounds to a ball one unit wide; both sides may be rounded ones
        let (b, bv) = if form < 2 {
            (LazyExact::from_f64(near), Rational::from_f64(near).unwrap())
        } else {
            let v = Rational::from_f64(near).unwrap() + Rational::from(&p / 1000) * Rational::from_f64(f64::EPSILON).unwrap();
            (LazyExact::from(v.clone()), v)
        };
        let a = LazyExact::from(p.clone());
        let (diff, dv) = if form % 2 == 0 { (&a - &b, Rational::from(&p - &bv)) } else { (&b - &a, Rational::from(&bv - &p)) };
        // the numbers must not be folded, so take the same difference of sums
        let z = LazyExact::from_f64(0.75);
        let (sa, sb) = (&a + &z, &b + &z);
        let diff2 = if form % 2 == 0 { &sa - &sb } else { &sb - &sa };
        if dv == 0 {
            return Ok(());
        }
        let nu = LazyExact::from(num.clone());
        c.case();
        c.call(8);
        for (name, x, v) in [
            ("difference", diff.clone(), dv.clone()),
            ("difference of sums", diff2.clone(), dv.clone()),
            ("quotient", &nu / &diff, Rational::from(&num / &dv)),
            ("quotient of sums", &nu / &diff2, Rational::from(&num / &dv)),
            ("quotient less one", &(&nu / &diff2) - &z, Rational::from(&num / &dv) - Rational::from((3, 4))),
            ("square", &diff2 * &diff2, Rational::from(&dv * &dv)),
        ] {
            match check_val(&x, &v) {
                Ok(h) => c.hit(h),
                Err(e) => return fail(format!("close {p} {ulps} form {form} {name}"), e),
            }
        }
        Ok(())
    })
}

/// The neighbours of a double that outward rounding relies on.
fn fam_next() -> Family {
    let mut v = vec![];
    for e in 0..2047u64 {
        for m in [0u64, 1, 2, (1 << 52) - 2, (1 << 52) - 1] {
            for s in 0..2u64 {
                v.push(f64::from_bits(s << 63 | e << 52 | m));
            }
        }
    }
    v.extend([f64::INFINITY, f64::NEG_INFINITY]);
    family("neighbours of doubles", v.len() as u64, move |i, c| {
        let x = v[i as usize];
        c.case();
        c.call(2);
        let (u, d) = (f64_next_up(x), f64_next_down(x));
        ensure!(u > x || x == f64::INFINITY && u == x, format!("next up {x:e}"), "{u:e}");
        ensure!(d < x || x == f64::NEG_INFINITY && d == x, format!("next down {x:e}"), "{d:e}");
        // no further than the next double, except around zero
        if x.abs() > f64::MIN_POSITIVE {
            ensure!(u == x.next_up() && d == x.next_down(), format!("next {x:e}"), "{d:e} {u:e}");
        }
        c.hit(if x.is_infinite() { "infinite" } else if x == 0.0 { "zero" } else if x.is_subnormal() { "denormal" } else { "normal" });
        Ok(())
    })
}

fn main() {
    use Query::*;
    let th = thorough();
    let mut f = vec![
        fam_leaf(),
        fam_balls(),
        fam_next(),
        fam_wide(),
        fam_close(),
        fam("2 leaves, 2 steps", 2, steps(&ALL, 2, &[None, Exact]), steps(&ALL, 3, &[None]), vec![]),
        fam("3 leaves, 2 steps", 3, steps(&CORE, 3, &[None]), steps(&CORE, 4, &[None]), vec![]),
    ];
    f.push(fam(
        "2 leaves, 3 steps",
        2,
        steps(&CORE, 2, &[None]),
        steps(&CORE, 3, &[None]),
        if th { steps(&CORE, 4, &[None]) } else { steps(&[Op::SubRef, Op::DivRef], 4, &[None]) },
    ));
    run_check(
        "C03",
        Opts {
            rule: "every straight-line program over a leaf alphabet spanning the float range; the exact value must lie in every enclosure offered \
                   before and after exact evaluation"
                .into(),
            assumptions: vec!["GMP rationals (rug) are the trusted oracle".into()],
            ..Default::default()
        },
        f,
    )
}
