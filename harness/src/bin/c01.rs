//! C01: arithmetic on exact scalars is exact (values).
use cgar::numeric::cgar_f64::CgarF64;
use cgar::numeric::cgar_rational::CgarRational;
use cgar::numeric::lazy_exact::LazyExact;
use cgar::numeric::scalar::{FromRef, RefInto, Scalar};
use cgar::operations::Zero;
use mc::engine::*;
use mc::num::*;
use mc::ensure;
use num_traits::ToPrimitive;
use rug::Rational;

fn leaves() -> Vec<Leaf> {
    use Leaf::*;
    vec![
        Zero,
        One,
        Default,
        Int(2),
        Int(-3),
        Float(0.5),
        Float(-0.0),
        FloatScalar(0.1),
        FloatRef(-1.5),
        Frac(1, 3),
        Frac(2, -7),
        Big("2^53+1"),
        BigRef("-10000000000000000000000007/3"),
    ]
}

fn check_lazy(leaves: &[Leaf], prog: &[Step], c: &mut Ctx) -> Res {
    let mut regs: Vec<LazyExact> = leaves.iter().map(|l| l.build()).collect();
    let mut vals: Vec<Rational> = leaves.iter().map(|l| l.value()).collect();
    for s in prog {
        let Some(v) = s.op.oracle(&vals[s.i], &vals[s.j]) else {
            c.hit("division by zero (skipped)");
            return Ok(());
        };
        let r = exec_lazy(s.op, &regs[s.i], &regs[s.j]);
        query(s.q, &r);
        regs.push(r);
        vals.push(v);
    }
    c.case();
    c.call(prog.len() as u64);
    // the newest value first, then every register (operands must not change)
    for k in (0..regs.len()).rev() {
        let e = regs[k].exact();
        ensure!(
            e.0 == vals[k],
            format!("lazy {}", show(leaves, prog)),
            "register r{k}: got {} expected {}",
            e.0,
            vals[k]
        );
    }
    let z = vals.last().unwrap();
    c.hit(match z.cmp0() {
        std::cmp::Ordering::Less => "negative result",
        std::cmp::Ordering::Equal => "zero result",
        std::cmp::Ordering::Greater => "positive result",
    });
    Ok(())
}

fn check_rat(leaves: &[Leaf], prog: &[Step], c: &mut Ctx) -> Res {
    let mut regs: Vec<CgarRational> = leaves.iter().map(|l| l.build()).collect();
    let mut vals: Vec<Rational> = leaves.iter().map(|l| l.value()).collect();
    for s in prog {
        let Some(v) = s.op.oracle(&vals[s.i], &vals[s.j]) else {
            return Ok(());
        };
        regs.push(exec_rat(s.op, &regs[s.i], &regs[s.j]));
        vals.push(v);
    }
    c.case();
    c.call(prog.len() as u64);
    for k in (0..regs.len()).rev() {
        ensure!(
            regs[k].0 == vals[k],
            format!("rational {}", show(leaves, prog)),
            "register r{k}: got {} expected {}",
            regs[k].0,
            vals[k]
        );
    }
    Ok(())
}

fn fam_programs(name: &str, nleaves: usize, s1: Vec<Step>, s2: Vec<Step>, s3: Vec<Step>, lazy: bool) -> Family {
    let ls = leaves();
    let nl = ls.len();
    let total = (nl as u64).pow(nleaves as u32) * s1.len() as u64;
    family(name, total, move |i, c| {
        let mut d = Dec(i);
        let st1 = s1[d.take(s1.len())];
        let lv: Vec<Leaf> = (0..nleaves).map(|_| ls[d.take(nl)].clone()).collect();
        c.sample(|| show(&lv, &[st1]));
        let run = |p: &[Step], c: &mut Ctx| if lazy { check_lazy(&lv, p, c) } else { check_rat(&lv, p, c) };
        run(&[st1], c)?;
        for st2 in &s2 {
            run(&[st1, *st2], c)?;
            for st3 in &s3 {
                run(&[st1, *st2, *st3], c)?;
            }
        }
        c.tick();
        Ok(())
    })
}

/// Chains long enough to cross any nesting limit of the lazy representation.
fn fam_deep() -> Family {
    let ls = leaves();
    let nl = ls.len();
    let lens: Vec<usize> = vec![1, 2, 7, 31, 63, 64, 65, 127, 128, 255, 256, 257, 511, 512, 513, 1000, 1022, 1023, 1024, 1025, 1026, 1300, 2047, 2049, 2100];
    let pats: Vec<Vec<Op>> = vec![
        vec![Op::AddRef],
        vec![Op::SubOwn],
        vec![Op::AddAssign],
        vec![Op::SubAssign],
        vec![Op::NegRef],
        vec![Op::AddRef, Op::NegOwn],
        vec![Op::MulRef, Op::DivRef],
        vec![Op::AddRef, Op::MulOwn, Op::SubRef, Op::DivOwn],
    ];
    let total = (nl * nl * lens.len() * pats.len() * 2) as u64;
    family("lazy/deep chains", total, move |i, c| {
        let mut d = Dec(i);
        // `seed` is a non-constant lazy node, so that nothing folds eagerly
        let a = &ls[d.take(nl)];
        let b = &ls[d.take(nl)];
        let pat = &pats[d.take(pats.len())];
        let len = lens[d.take(lens.len())];
        let right = d.take(2) == 1;
        let bv = b.value();
        if bv.cmp0() == std::cmp::Ordering::Equal && pat.contains(&Op::MulRef) {
            c.hit("trivial");
            return Ok(());
        }
        let lb: LazyExact = b.build();
        // float leaf + float leaf is kept as an unevaluated node
        let seed = LazyExact::from_f64(0.75);
        let mut x = &a.build::<LazyExact>() + &seed;
        let mut v = a.value() + Rational::from((3, 4));
        for k in 0..len {
            let op = pat[k % pat.len()];
            let (l, r, lv, rv) = if right && !op.unary() && !matches!(op, Op::DivRef | Op::DivOwn) {
                (&lb, &x, &bv, &v)
            } else {
                (&x, &lb, &v, &bv)
            };
            let Some(nv) = op.oracle(lv, rv) else {
                return Ok(());
            };
            x = exec_lazy(op, l, r);
            v = nv;
        }
        c.case();
        c.call(len as u64);
        let e = x.exact();
        ensure!(
            e.0 == v,
            format!("deep {:?} {:?} {:?} len {} right {}", a, b, pat, len, right),
            "chain value {} expected {}",
            e.0.to_f64(),
            v.to_f64()
        );
        c.hit("deep value equal");
        Ok(())
    })
}

/// Programs whose last step divides by zero, whatever is divided and however the zero is written: no value comes out.
/// (The division itself may already stop, or the first question about its result.)
fn fam_no_value(name: &str, lazy: bool) -> Family {
    let ls = leaves();
    let nl = ls.len();
    let (s1, s2) = (steps(&ALL, 2, &[Query::None, Query::Exact, Query::Sign]), steps(&[Op::DivRef, Op::DivOwn], 3, &[Query::None]));
    family(name, (nl * nl * s1.len()) as u64, move |i, c| {
        let mut d = Dec(i);
        let st1 = s1[d.take(s1.len())];
        let lv: Vec<Leaf> = (0..2).map(|_| ls[d.take(nl)].clone()).collect();
        let mut run = |p: &[Step]| -> Res {
            let mut vals: Vec<Rational> = lv.iter().map(|l| l.value()).collect();
            for (k, s) in p.iter().enumerate() {
                match s.op.oracle(&vals[s.i], &vals[s.j]) {
                    Some(v) => vals.push(v),
                    None if k + 1 < p.len() => return Ok(()),
                    None => {}
                }
            }
            if vals.len() == lv.len() + p.len() {
                return Ok(());
            }
            let n = p.len();
            c.case();
            c.call(n as u64);
            let got: Vec<(&str, Result<String, String>)> = if lazy {
                let mut regs: Vec<LazyExact> = lv.iter().map(|l| l.build()).collect();
                for s in &p[..n - 1] {
                    let r = exec_lazy(s.op, &regs[s.i], &regs[s.j]);
                    query(s.q, &r);
                    regs.push(r);
                }
                let s = &p[n - 1];
                let q = || exec_lazy(s.op, &regs[s.i], &regs[s.j]);
                vec![
                    ("value", guarded(|| q().exact().0.to_string())),
                    ("sign", guarded(|| format!("{} {}", Zero::is_positive(&q()), Zero::is_zero(&q())))),
                    ("rational", guarded(|| CgarRational::from(q()).0.to_string())),
                ]
            } else {
                let mut regs: Vec<CgarRational> = lv.iter().map(|l| l.build()).collect();
                for s in &p[..n - 1] {
                    regs.push(exec_rat(s.op, &regs[s.i], &regs[s.j]));
                }
                let s = &p[n - 1];
                vec![("value", guarded(|| exec_rat(s.op, &regs[s.i], &regs[s.j]).0.to_string()))]
            };
            for (what, r) in got {
                ensure!(r.is_err(), format!("{} {}", if lazy { "lazy" } else { "rational" }, show(&lv, p)), "dividing by zero gives {what} {}", r.unwrap());
            }
            let num = &vals[p[n - 1].i];
            c.hit(if *num == 0 { "zero by zero" } else { "something by zero" });
            Ok(())
        };
        run(&[st1])?;
        for st2 in &s2 {
            run(&[st1, *st2])?;
        }
        c.tick();
        Ok(())
    })
}

/// Conversions between the three number types, by value and by reference.
fn fam_convert() -> Family {
    let mut ls = leaves();
    ls.extend([
        Leaf::Int(i32::MAX),
        Leaf::Int(i32::MIN),
        Leaf::Float(1e300),
        Leaf::Float(-5e-324),
        Leaf::Float(f64::MAX),
        Leaf::Frac(i32::MAX, -2),
        Leaf::Big("2^200"),
        Leaf::BigRef("2^-200"),
    ]);
    let n = ls.len() as u64;
    family("conversions", n * n * 5, move |i, c| {
        let mut d = Dec(i);
        let a = &ls[d.take(n as usize)];
        let b = &ls[d.take(n as usize)];
        let op = CORE[d.take(5)];
        let Some(v) = op.oracle(&a.value(), &b.value()) else {
            return Ok(());
        };
        c.case();
        c.call(8);
        let x = exec_lazy(op, &a.build(), &b.build());
        let r = exec_rat(op, &a.build(), &b.build());
        let sig = format!("convert {:?} {:?} {:?}", op, a, b);
        let outs: Vec<(&str, Rational)> = vec![
            ("lazy->rational", CgarRational::from(x.clone()).0),
            ("&lazy->rational", CgarRational::from(&x).0),
            ("ref_into", <LazyExact as RefInto<CgarRational>>::ref_into(&x).0),
            ("from_ref", <CgarRational as FromRef<LazyExact>>::from_ref(&x).0),
            ("lazy from_ref", <LazyExact as FromRef<LazyExact>>::from_ref(&x).exact().0),
            ("rational->lazy", LazyExact::from(r.clone()).exact().0),
            ("rational ref lazy", <CgarRational as RefInto<LazyExact>>::ref_into(&r).exact().0),
            ("rational", r.0.clone()),
            ("rational->rational", <CgarRational as RefInto<CgarRational>>::ref_into(&r).0),
            ("rug->rational", CgarRational::from(v.clone()).0),
            ("rug->lazy", LazyExact::from(v.clone()).exact().0),
            ("lazy tolerance", (x.clone() + LazyExact::tolerance()).exact().0),
        ];
        for (n, o) in outs {
            ensure!(o == v, sig, "{n}: {} expected {}", o, v);
        }
        // float scalar carries exactly the double
        if let Leaf::Float(f) | Leaf::FloatScalar(f) | Leaf::FloatRef(f) = a {
            let g = CgarF64(*f);
            let fl: LazyExact = g.ref_into();
            let fr: CgarRational = g.ref_into();
            let e = Rational::from_f64(*f).unwrap();
            ensure!(fl.exact().0 == e && fr.0 == e, sig, "float {} not carried exactly", f);
        }
        c.hit("converted");
        Ok(())
    })
}

/// Exact numbers turned into integers: the whole part if it fits, nothing otherwise; and the named constructors.
fn fam_cast() -> Family {
    let mut vs: Vec<Rational> = vec![];
    for e in [0u32, 1, 31, 52, 53, 54, 61, 62, 63, 64, 65] {
        for k in -3i32..=3 {
            for s in [1, -1] {
                for q in [1, 2, 3] {
                    vs.push((Rational::from(1) << e) * s + Rational::from((k, q)));
                }
            }
        }
    }
    let n = vs.len() as u64;
    family("casts to integers", n, move |i, c| {
        let v = &vs[i as usize];
        let whole = rug::Integer::from(v.trunc_ref());
        let r = CgarRational::from(v.clone());
        let forms: Vec<(&str, LazyExact)> = vec![
            ("named rational", LazyExact::from_rug_rational(v.clone())),
            ("named scalar", LazyExact::from_cgar_rational(r.clone())),
            ("unevaluated", &LazyExact::from(v.clone()) - &LazyExact::from_f64(0.0)),
            ("sum", &LazyExact::from(Rational::from(v - 1)) + &LazyExact::from_i32(1)),
            ("difference", &LazyExact::from(Rational::from(v + Rational::from((1, 2)))) - &LazyExact::from_cgar_f64(CgarF64(0.5))),
        ];
        c.case();
        c.call(2 + 5 * forms.len() as u64);
        let want = (whole.to_i64(), whole.to_u64());
        ensure!((r.to_i64(), r.to_u64()) == want, format!("cast {v}"), "rational gives {:?} {:?}, whole part {whole}", r.to_i64(), r.to_u64());
        for (name, x) in forms {
            ensure!((x.to_i64(), x.to_u64()) == want, format!("cast {name} {v}"), "{:?} {:?}, whole part {whole}", x.to_i64(), x.to_u64());
            x.force_exact();
            ensure!(x.has_exact() && x.exact().0 == *v, format!("forced {name} {v}"), "value {}", x.exact().0);
            if let Some(f) = x.as_f64_if_exact() {
                ensure!(*v == f, format!("double {name} {v}"), "called exactly {f:e}");
            }
        }
        if let (Some(f), Some(k)) = (whole.to_i32(), want.0) {
            let y = LazyExact::from_i32(f);
            ensure!(y.to_i64() == Some(k) && y.exact().0 == whole, format!("int {f}"), "value {}", y.exact().0);
        }
        let d = whole.to_f64();
        ensure!(LazyExact::from_cgar_f64(CgarF64(d)).as_f64_if_exact() == Some(d), format!("leaf {d}"), "a double leaf is not its own value");
        c.hit(match want { (None, None) => "fits neither", (Some(_), None) => "negative", (None, Some(_)) => "unsigned only", _ => "fits both" });
        Ok(())
    })
}

/// Float scalar: every operand form computes the IEEE result.
fn fam_f64() -> Family {
    let vals = [
        0.0, -0.0, 1.0, -1.0, 0.5, 0.1, -0.3, 3.0, 1e-12, 1e12, 1e-200, -1e200, f64::MIN_POSITIVE, 9007199254740993.0,
    ];
    let n = vals.len();
    family("float operand forms", (n * n * n * ALL.len()) as u64, move |i, c| {
        let mut d = Dec(i);
        let op = ALL[d.take(ALL.len())];
        let (a, b, e) = (vals[d.take(n)], vals[d.take(n)], vals[d.take(n)]);
        let f = |op: Op, a: f64, b: f64| -> Option<f64> {
            Some(match op {
                Op::AddRef | Op::AddOwn | Op::AddAssign => a + b,
                Op::SubRef | Op::SubOwn | Op::SubAssign => a - b,
                Op::MulRef | Op::MulOwn => a * b,
                Op::DivRef | Op::DivOwn => a / b,
                Op::NegRef | Op::NegOwn => -a,
                Op::Abs => a.abs(),
                _ => return None,
            })
        };
        let Some(w) = f(op, a, b) else { return Ok(()) };
        c.case();
        c.call(2);
        let r = exec_f64(op, &CgarF64(a), &CgarF64(b));
        ensure!(
            r.0.to_bits() == w.to_bits() || (r.0.is_nan() && w.is_nan()),
            format!("f64 {:?} {} {}", op, a, b),
            "got {} expected {}",
            r.0,
            w
        );
        let w2 = w - e;
        let r2 = exec_f64(Op::SubRef, &r, &CgarF64(e));
        ensure!(
            r2.0.to_bits() == w2.to_bits() || (r2.0.is_nan() && w2.is_nan()),
            format!("f64 {:?} {} {} - {}", op, a, b, e),
            "got {} expected {}",
            r2.0,
            w2
        );
        Ok(())
    })
}

fn main() {
    use Query::*;
    let th = thorough();
    let mut f = vec![
        fam_programs("lazy/1-2 steps, all forms", 2, steps(&ALL, 2, &[None, Exact, Sign, Hash]), steps(&ALL, 3, &[None]), vec![], true),
        fam_programs(
            "lazy/3 steps, core",
            2,
            steps(&CORE, 2, &[None, Exact]),
            steps(&CORE, 3, &[None, Exact]),
            if th { steps(&CORE, 4, &[None]) } else { steps(&[Op::SubRef, Op::MulRef], 4, &[None]) },
            true,
        ),
        fam_programs("rational/1-2 steps, all forms", 2, steps(&ALL, 2, &[None]), steps(&ALL, 3, &[None]), vec![], false),
        fam_no_value("lazy/division by zero", true),
        fam_no_value("rational/division by zero", false),
        fam_deep(),
        fam_convert(),
        fam_cast(),
        fam_f64(),
    ];
    if th {
        f.push(fam_programs("lazy/2 steps, 3 leaves", 3, steps(&ALL, 3, &[None, Exact]), steps(&ALL, 4, &[None]), vec![], true));
    }
    run_check(
        "C01",
        Opts {
            rule: "every straight-line program over a fixed leaf alphabet up to the stated number of steps, in every operand form; \
                   a state is one program, a transition one arithmetic call; programs that go on after dividing by zero are skipped"
                .into(),
            assumptions: vec!["GMP rationals (rug) are the trusted oracle".into()],
            ..Default::default()
        },
        f,
    )
}
