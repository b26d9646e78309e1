//! C02: decisions (sign, order, equality, hash) on exact numbers are the true ones.
use cgar::numeric::cgar_rational::CgarRational;
use cgar::numeric::lazy_exact::LazyExact;
use cgar::numeric::scalar::Scalar;
use cgar::operations::Zero;
use mc::engine::*;
use mc::ensure;
use mc::num::*;
use rug::Rational;
use std::cmp::Ordering;

/// Leaves whose float approximations coincide, nearly cancel, or under/overflow.
fn leaves() -> Vec<Leaf> {
    use Leaf::*;
    vec![
        Zero,
        One,
        Float(-0.0),
        Int(-3),
        Frac(1, 3),
        Float(1.0 / 3.0),
        Float(0.33333333333333337), // next float above fl(1/3)
        Float(5e-17),
        Float(-1e-17),
        Frac(-1, 10),
        Float(0.1),
        Float(9007199254740992.0),
        Big("2^53+1"),
        Big("2^-1100"),
        BigRef("2^1100"),
        Float(1e300),
        Float(5e-324),
    ]
}

fn sgn(o: Ordering) -> i8 {
    match o {
        Ordering::Less => -1,
        Ordering::Equal => 0,
        Ordering::Greater => 1,
    }
}

fn decisions<T: Scalar + Zero>(x: &T, v: &Rational) -> Result<(), String> {
    let s = sgn(v.cmp0());
    let got = x.sign();
    if got != s {
        return Err(format!("sign {got}, true sign {s}"));
    }
    for (n, g, e) in [
        ("is_zero", Zero::is_zero(x), s == 0),
        ("is_positive", x.is_positive(), s > 0),
        ("is_negative", x.is_negative(), s < 0),
        ("is_positive_or_zero", x.is_positive_or_zero(), s >= 0),
        ("is_negative_or_zero", x.is_negative_or_zero(), s <= 0),
    ] {
        if g != e {
            return Err(format!("{n} = {g}, true sign {s}"));
        }
    }
    Ok(())
}

fn compare<T: Scalar>(x: &T, y: &T, v: &Rational, w: &Rational) -> Result<(), String> {
    let o = v.cmp(w);
    if x.partial_cmp(y) != Some(o) {
        return Err(format!("partial_cmp {:?}, truth {:?}", x.partial_cmp(y), o));
    }
    if T::cmp_ref(x, y) != o {
        return Err(format!("cmp_ref {:?}, truth {:?}", T::cmp_ref(x, y), o));
    }
    if T::cmp_ref(y, x) != o.reverse() {
        return Err(format!("reversed cmp_ref {:?}, truth {:?}", T::cmp_ref(y, x), o.reverse()));
    }
    if (x == y) != (o == Ordering::Equal) {
        return Err(format!("== gives {}, truth {:?}", x == y, o));
    }
    if o == Ordering::Equal && hash_of(x) != hash_of(y) {
        return Err("equal values hash differently".into());
    }
    if (x < y) != (o == Ordering::Less) || (x > y) != (o == Ordering::Greater) {
        return Err("< or > disagrees".into());
    }
    Ok(())
}

fn minmax(x: &LazyExact, y: &LazyExact, v: &Rational, w: &Rational) -> Result<(), String> {
    let lo = if v <= w { v } else { w };
    let hi = if v >= w { v } else { w };
    if &Scalar::min(x.clone(), y.clone()).exact().0 != lo {
        return Err("min picks the larger value".into());
    }
    if &Scalar::max(x.clone(), y.clone()).exact().0 != hi {
        return Err("max picks the smaller value".into());
    }
    if let Some(o) = x.cmp_fast(y) {
        if o != v.cmp(w) {
            return Err(format!("cmp_fast {:?}, truth {:?}", o, v.cmp(w)));
        }
    }
    if LazyExact::cmp_exact(x, y) != sgn(v.cmp(w)) {
        return Err("cmp_exact wrong".into());
    }
    if x.cmp_zero() != v.cmp0() {
        return Err("cmp_zero wrong".into());
    }
    Ok(())
}

struct Run {
    regs: Vec<LazyExact>,
    vals: Vec<Rational>,
}

fn build(leaves: &[Leaf], lv: &[Rational], prog: &[Step]) -> Option<Run> {
    let mut regs: Vec<LazyExact> = leaves.iter().map(|l| l.build()).collect();
    let mut vals: Vec<Rational> = lv.to_vec();
    for s in prog {
        let v = s.op.oracle(&vals[s.i], &vals[s.j])?;
        let r = exec_lazy(s.op, &regs[s.i], &regs[s.j]);
        query(s.q, &r);
        regs.push(r);
        vals.push(v);
    }
    Some(Run { regs, vals })
}

fn check(leaves: &[Leaf], lv: &[Rational], prog: &[Step], full: bool, c: &mut Ctx) -> Res {
    let Some(r) = build(leaves, lv, prog) else {
        c.hit("division by zero (skipped)");
        return Ok(());
    };
    c.case();
    c.call(prog.len() as u64 + 6);
    let n = r.regs.len() - 1;
    let sig = || format!("lazy {}", show(leaves, prog));
    if let Err(e) = decisions(&r.regs[n], &r.vals[n]) {
        return fail(sig(), format!("r{n}: {e}"));
    }
    c.hit(match r.vals[n].cmp0() {
        Ordering::Less => "negative",
        Ordering::Equal => "zero",
        Ordering::Greater => "positive",
    });
    if full {
        // comparison histories: fresh copies, so that nothing is cached yet
        for k in 0..n {
            let f = build(leaves, lv, prog).unwrap();
            c.call(8);
            if let Err(e) = compare(&f.regs[n], &f.regs[k], &f.vals[n], &f.vals[k]) {
                return fail(sig(), format!("r{n} vs r{k}: {e}"));
            }
            if let Err(e) = minmax(&f.regs[k], &f.regs[n], &f.vals[k], &f.vals[n]) {
                return fail(sig(), format!("r{k} vs r{n}: {e}"));
            }
        }
    }
    Ok(())
}

fn fam_lazy(name: &str, nleaves: usize, s1: Vec<Step>, s2: Vec<Step>, s3: Vec<Step>, full: usize) -> Family {
    let ls = leaves();
    let lv: Vec<Rational> = ls.iter().map(|l| l.value()).collect();
    let nl = ls.len();
    let total = (nl as u64).pow(nleaves as u32) * s1.len() as u64;
    family(name, total, move |i, c| {
        let mut d = Dec(i);
        let st1 = s1[d.take(s1.len())];
        let ids: Vec<usize> = (0..nleaves).map(|_| d.take(nl)).collect();
        let l: Vec<Leaf> = ids.iter().map(|&k| ls[k].clone()).collect();
        let v: Vec<Rational> = ids.iter().map(|&k| lv[k].clone()).collect();
        c.sample(|| show(&l, &[st1]));
        check(&l, &v, &[st1], full >= 1, c)?;
        for a in &s2 {
            check(&l, &v, &[st1, *a], full >= 2, c)?;
            for b in &s3 {
                check(&l, &v, &[st1, *a, *b], full >= 3, c)?;
            }
            c.tick();
        }
        Ok(())
    })
}

/// Leaf-level comparisons in every order, for both exact types, plus answers
/// that must not depend on the order in which questions are asked.
fn fam_histories() -> Family {
    let ls = leaves();
    let n = ls.len();
    // sequences of 3 observations on x = a op b and y = c, then the decision
    let qs = [Query::Exact, Query::Sign, Query::Interval, Query::Hash, Query::Approx];
    let total = (n * n * n * CORE.len() * qs.len() * qs.len()) as u64;
    family("query histories", total, move |i, c| {
        let mut d = Dec(i);
        let (q1, q2) = (qs[d.take(5)], qs[d.take(5)]);
        let op = CORE[d.take(5)];
        let (a, b, e) = (&ls[d.take(n)], &ls[d.take(n)], &ls[d.take(n)]);
        let (va, vb, ve) = (a.value(), b.value(), e.value());
        let Some(v) = op.oracle(&va, &vb) else { return Ok(()) };
        let (la, lb, le): (LazyExact, LazyExact, LazyExact) = (a.build(), b.build(), e.build());
        let x = exec_lazy(op, &la, &lb);
        query(q1, &x);
        let y = x.clone();
        query(q2, &le);
        c.case();
        c.call(14);
        let sig = format!("history {:?}({:?},{:?})?{:?} vs {:?}?{:?}", op, a, b, q1, e, q2);
        let r = compare(&x, &le, &v, &ve)
            .and_then(|_| decisions(&y, &v))
            .and_then(|_| minmax(&le, &y, &ve, &v))
            .and_then(|_| compare(&y, &x, &v, &v))
            .and_then(|_| decisions(&(&x - &le), &(v.clone() - &ve)));
        if let Err(m) = r {
            return fail(sig, m);
        }
        c.hit(match v.cmp(&ve) {
            Ordering::Less => "less",
            Ordering::Equal => "equal",
            Ordering::Greater => "greater",
        });
        Ok(())
    })
}

fn fam_rational() -> Family {
    let ls = leaves();
    let n = ls.len();
    family("rational decisions", (n * n * n * CORE.len()) as u64, move |i, c| {
        let mut d = Dec(i);
        let op = CORE[d.take(5)];
        let (a, b, e) = (&ls[d.take(n)], &ls[d.take(n)], &ls[d.take(n)]);
        let Some(v) = op.oracle(&a.value(), &b.value()) else { return Ok(()) };
        let ve = e.value();
        let x: CgarRational = exec_rat(op, &a.build(), &b.build());
        let y: CgarRational = e.build();
        c.case();
        c.call(12);
        let sig = format!("rational {:?}({:?},{:?}) vs {:?}", op, a, b, e);
        let r = decisions(&x, &v).and_then(|_| compare(&x, &y, &v, &ve)).and_then(|_| {
            let lo = if v <= ve { &v } else { &ve };
            let hi = if v >= ve { &v } else { &ve };
            if &Scalar::min(x.clone(), y.clone()).0 != lo || &Scalar::max(x.clone(), y.clone()).0 != hi {
                return Err("min/max wrong".to_string());
            }
            if x.approx_eq(&y) != (v == ve) {
                return Err("approx_eq of exact numbers is not equality".to_string());
            }
            Ok(())
        });
        if let Err(m) = r {
            return fail(sig, m);
        }
        c.hit(match v.cmp(&ve) {
            Ordering::Less => "less",
            Ordering::Equal => "equal",
            Ordering::Greater => "greater",
        });
        Ok(())
    })
}

/// Long alternating sums and products that cancel to 0 or to a tiny residue.
fn fam_cancel() -> Family {
    let ls = leaves();
    let n = ls.len();
    let lens = [1usize, 2, 3, 5, 17, 100, 511, 1023, 1024, 1025, 1500, 2100];
    family("long cancellations", (n * n * n * lens.len() * 3) as u64, move |i, c| {
        let mut d = Dec(i);
        let mode = d.take(3);
        let (a, b, e) = (&ls[d.take(n)], &ls[d.take(n)], &ls[d.take(n)]);
        let len = lens[d.take(lens.len())];
        let (va, vb, ve) = (a.value(), b.value(), e.value());
        let (la, lb, le): (LazyExact, LazyExact, LazyExact) = (a.build(), b.build(), e.build());
        let mut x = &la + &LazyExact::from_f64(0.0);
        let mut v = va.clone();
        for k in 0..len {
            match mode {
                0 => {
                    // + b, then - b
                    if k % 2 == 0 {
                        x = &x + &lb;
                        v += &vb;
                    } else {
                        x = &x - &lb;
                        v -= &vb;
                    }
                }
                1 => {
                    if vb.cmp0() == Ordering::Equal {
                        return Ok(());
                    }
                    if k % 2 == 0 {
                        x = &x * &lb;
                        v *= &vb;
                    } else {
                        x = &x / &lb;
                        v /= &vb;
                    }
                }
                _ => {
                    x += &lb;
                    v += &vb;
                }
            }
        }
        x = &x - &la;
        v -= &va;
        x = &x - &le;
        v -= &ve;
        c.case();
        c.call(len as u64 + 8);
        if let Err(m) = decisions(&x, &v) {
            return fail(format!("cancel mode {mode} len {len} {:?} {:?} {:?}", a, b, e), m);
        }
        // the same value without a history, and one next to it
        let near = Rational::from(&v + (Rational::from(1) >> 1300u32));
        for w in [&v, &near] {
            if let Err(m) = compare(&x, &LazyExact::from(w.clone()), &v, w) {
                return fail(format!("cancel mode {mode} len {len} {:?} {:?} {:?} compared", a, b, e), m);
            }
        }
        c.hit(match v.cmp0() {
            Ordering::Less => "negative",
            Ordering::Equal => "zero",
            Ordering::Greater => "positive",
        });
        Ok(())
    })
}

fn main() {
    use Query::*;
    let th = thorough();
    let mut f = vec![
        fam_lazy("2 leaves, all forms", 2, steps(&ALL, 2, &[None, Exact, Sign]), steps(&ALL, 3, &[None]), vec![], 2),
        fam_lazy("3 leaves, 2 steps", 3, steps(&CORE, 3, &[None, Exact]), steps(&CORE, 4, &[None]), vec![], if th { 2 } else { 0 }),
        fam_lazy(
            "2 leaves, 3 steps",
            2,
            steps(&CORE, 2, &[None]),
            steps(&CORE, 3, &[None, Exact]),
            steps(&CORE, 4, &[None]),
            if th { 3 } else { 0 },
        ),
        fam_histories(),
        fam_rational(),
        fam_cancel(),
    ];
    if th {
        f.push(fam_lazy("3 leaves, 3 steps", 3, steps(&CORE, 3, &[None]), steps(&CORE, 4, &[None]), steps(&[Op::AddRef, Op::SubRef], 5, &[None]), 0));
    }
    run_check(
        "C02",
        Opts {
            rule: "every straight-line program over leaves whose float images coincide, cancel, under- or overflow, with every placement of \
                   cache-filling observations; decisions on the result compared with exact rationals"
                .into(),
            assumptions: vec!["GMP rationals (rug) are the trusted oracle".into(), "no NaN or infinite float leaves".into()],
            ..Default::default()
        },
        f,
    )
}
