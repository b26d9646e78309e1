//! C04: orientation and in-circle predicates return the true sign.
use cgar::geometry::point::Point;
use cgar::kernel::f64_kernel::F64Kernel;
use cgar::kernel::orient;
use cgar::kernel::predicates::{incircle, orient2d};
use cgar::kernel::{Kernel2, Kernel3};
use cgar::operations::Zero;
use mc::engine::*;
use mc::ensure;
use mc::geo::*;
use rug::Rational;

/// lattice determinant of the in-circle test: rows (x, y, x²+y², 1)
fn incircle_i(p: [&I2; 4]) -> i128 {
    let m: Vec<Vec<i128>> = p
        .iter()
        .map(|v| {
            let (x, y) = (v[0] as i128, v[1] as i128);
            vec![x, y, x * x + y * y, 1]
        })
        .collect();
    det_perm(&m)
}

mc::per_scalar! {
    fn skip(f: &Frame) -> bool { !T::EXACT && f.exact_only }
    /// a zero verdict is demanded of doubles only where the inputs are exact
    fn judge(f: &Frame, got: &T, want: i32, sig: &str, what: impl Fn() -> String) -> Res {
        if !T::EXACT && !f.dyadic && want == 0 {
            // rounding of the inputs may legitimately turn an exact zero into a tiny value
            let v = fl(got);
            ensure!(v.abs() < 1e-6 * f.s.to_f64().abs().max(1.0), format!("{sig}-far-from-zero"), "{}: got {v}", what());
            return Ok(());
        }
        let s = sgn(got);
        ensure!(s == Some(want), sig, "{}: got sign {s:?}, true sign {want}", what());
        // the scalar's own sign queries agree
        ensure!(got.is_zero() == (want == 0) && got.is_positive() == (want > 0) && got.is_negative() == (want < 0),
            format!("{sig}-query"), "{}: sign queries disagree with {want}", what());
        Ok(())
    }
    pub fn plane(name: &str, n: usize, fr: Vec<Frame>, exact_only_orient: bool) -> Family {
        let m = n * n;
        let k = fr.len();
        family(&format!("{}/{name}", T::NAME), (m * m * k) as u64, move |i, c| {
            let mut d = Dec(i);
            let f = &fr[d.take(k)];
            if skip(f) { return Ok(()); }
            let (ia, ib) = (d.take(m), d.take(m));
            let a: I2 = lat(ia, n, 0);
            let b: I2 = lat(ib, n, 0);
            let (pa, pb) = (pt::<T, 2>(f, &a), pt::<T, 2>(f, &b));
            for ic in 0..m {
                let cc: I2 = lat(ic, n, 0);
                let pc = pt::<T, 2>(f, &cc);
                let w = f.sign(2, sgn_i(orient_i(&[a, b, cc])));
                c.case();
                c.call(2);
                let g = orient::<T, 2>(&[pa.clone(), pb.clone(), pc.clone()]);
                judge(f, &g, w, "orient-2d", || format!("orient {a:?} {b:?} {cc:?} frame {}", f.name))?;
                if !exact_only_orient {
                    let g = orient2d(&pa, &pb, &pc);
                    judge(f, &g, w, "orient2d", || format!("orient2d {a:?} {b:?} {cc:?} frame {}", f.name))?;
                }
                c.hit(match w { 0 => "flat", 1 => "left", _ => "right" });
                c.sample(|| format!("orient2d {a:?} {b:?} {cc:?} -> {w}"));
            }
            Ok(())
        })
    }
    pub fn space(fr: Vec<Frame>, n: usize) -> Family {
        let m = n * n * n;
        let k = fr.len();
        family(&format!("{}/space", T::NAME), (m * m * k) as u64, move |i, c| {
            let mut d = Dec(i);
            let f = &fr[d.take(k)];
            if skip(f) { return Ok(()); }
            let a: I3 = lat(d.take(m), n, 0);
            let b: I3 = lat(d.take(m), n, 0);
            let (pa, pb) = (pt::<T, 3>(f, &a), pt::<T, 3>(f, &b));
            let all: Vec<(I3, Point<T, 3>)> = (0..m).map(|j| { let v: I3 = lat(j, n, 0); let p = pt::<T, 3>(f, &v); (v, p) }).collect();
            for (vc, pc) in &all {
                for (vd, pd) in &all {
                    let w = f.sign(3, sgn_i(orient_i(&[a, b, *vc, *vd])));
                    c.case();
                    c.call(1);
                    let g = orient::<T, 3>(&[pa.clone(), pb.clone(), pc.clone(), pd.clone()]);
                    judge(f, &g, w, "orient-3d", || format!("orient {a:?} {b:?} {vc:?} {vd:?} frame {}", f.name))?;
                    c.hit(match w { 0 => "flat", 1 => "positive", _ => "negative" });
                }
            }
            c.sample(|| format!("orient3d {a:?} {b:?} with every pair of lattice points"));
            Ok(())
        })
    }
    pub fn four(fr: Vec<Frame>) -> Family {
        let k = fr.len();
        family(&format!("{}/four-space", T::NAME), (16 * 16 * 16 * k) as u64, move |i, c| {
            let mut d = Dec(i);
            let f = &fr[d.take(k)];
            if skip(f) { return Ok(()); }
            let a: [i64; 4] = lat(d.take(16), 2, 0);
            let b: [i64; 4] = lat(d.take(16), 2, 0);
            let e: [i64; 4] = lat(d.take(16), 2, 0);
            for j in 0..256usize {
                let g: [i64; 4] = lat(j % 16, 2, 0);
                let h: [i64; 4] = lat(j / 16, 2, 0);
                let pts = [a, b, e, g, h];
                let w = f.sign(4, sgn_i(orient_i(&pts)));
                c.case();
                c.call(1);
                let r = orient::<T, 4>(&pts.map(|v| pt::<T, 4>(f, &v)));
                judge(f, &r, w, "orient-4d", || format!("orient {pts:?} frame {}", f.name))?;
                c.hit(match w { 0 => "flat", 1 => "positive", _ => "negative" });
            }
            c.sample(|| format!("orient4d {a:?} {b:?} {e:?} with every pair of cube corners"));
            Ok(())
        })
    }
    pub fn line() -> Family {
        let fr = frames();
        let k = fr.len();
        family(&format!("{}/line", T::NAME), (k * 25) as u64, move |i, c| {
            let mut d = Dec(i);
            let f = &fr[d.take(k)];
            if skip(f) { return Ok(()); }
            let a: [i64; 1] = [d.take(5) as i64 - 2];
            let b: [i64; 1] = [d.take(5) as i64 - 2];
            c.case();
            c.call(1);
            let w = f.sign(1, sgn_i((b[0] - a[0]) as i128));
            let g = orient::<T, 1>(&[pt(f, &a), pt(f, &b)]);
            judge(f, &g, w, "orient-1d", || format!("orient {a:?} {b:?} frame {}", f.name))
        })
    }
    pub fn circle(fr: Vec<Frame>, n: usize) -> Family {
        let m = n * n;
        let k = fr.len();
        family(&format!("{}/circle", T::NAME), (m * m * m * k) as u64, move |i, c| {
            let mut d = Dec(i);
            let f = &fr[d.take(k)];
            if skip(f) { return Ok(()); }
            let a: I2 = lat(d.take(m), n, 0);
            let b: I2 = lat(d.take(m), n, 0);
            let e: I2 = lat(d.take(m), n, 0);
            let (pa, pb, pc) = (pt::<T, 2>(f, &a), pt::<T, 2>(f, &b), pt::<T, 2>(f, &e));
            for j in 0..m {
                let g: I2 = lat(j, n, 0);
                let w = f.sign(4, sgn_i(incircle_i([&a, &b, &e, &g])));
                c.case();
                c.call(1);
                let r = incircle(&pa, &pb, &pc, &pt::<T, 2>(f, &g));
                judge(f, &r, w, "incircle", || format!("incircle {a:?} {b:?} {e:?} ? {g:?} frame {}", f.name))?;
                c.hit(match w { 0 => "on", 1 => "inside-ccw", _ => "outside-ccw" });
            }
            c.sample(|| format!("incircle {a:?} {b:?} {e:?} with every lattice point"));
            Ok(())
        })
    }
    /// coordinates of wildly different size: products exceed what doubles can hold
    pub fn wide() -> Family {
        const A: [i64; 6] = [-(1 << 53) - 1, -1, 0, 1, (1 << 30) + 1, 1 << 53];
        family(&format!("{}/wide", T::NAME), 36 * 36, move |i, c| {
            if !T::EXACT { return Ok(()); }
            let fr = frames();
            let f = &fr[0];
            let mut d = Dec(i);
            let p = |j: usize| -> I2 { [A[j % 6], A[j / 6]] };
            let mk = |v: &I2| -> Point<T, 2> { Point { coords: [T::of(&Rational::from(v[0])), T::of(&Rational::from(v[1]))] } };
            let a = p(d.take(36));
            let b = p(d.take(36));
            for j in 0..36 {
                let e = p(j);
                let det = orient_i(&[a, b, e]);
                let w = sgn_i(det);
                c.case();
                c.call(2);
                let (pa, pb, pc) = (mk(&a), mk(&b), mk(&e));
                let g = orient::<T, 2>(&[pa.clone(), pb.clone(), pc.clone()]);
                judge(f, &g, w, "orient-wide", || format!("orient {a:?} {b:?} {e:?}"))?;
                // the planar predicate may call nearly flat triples flat, nothing else
                let g = orient2d(&pa, &pb, &pc);
                let s = sgn(&g);
                let sum: f64 = [a, b, e].iter().flatten().map(|v| v.abs() as f64).sum();
                let clear = (det.unsigned_abs() as f64) > 1e-9 * sum;
                ensure!(s == Some(w) || (!clear && s == Some(0)), "orient2d-wide", "orient2d {a:?} {b:?} {e:?}: sign {s:?}, true {w}");
                c.hit(match w { 0 => "flat", 1 => "left", _ => "right" });
            }
            Ok(())
        })
    }
}

fn kernel_family() -> Family {
    let fr = frames();
    let k = fr.len();
    family("f64-kernel", (k * 27 * 27) as u64, move |i, c| {
        let mut d = Dec(i);
        let f = &fr[d.take(k)];
        if f.exact_only {
            return Ok(());
        }
        let a: I3 = lat(d.take(27), 3, 0);
        let b: I3 = lat(d.take(27), 3, 0);
        let all: Vec<I3> = (0..27).map(|j| lat(j, 3, 0)).collect();
        for vc in &all {
            // the planar entry point on the first two coordinates
            let s2 = |v: &I3| [v[0], v[1]];
            let w2 = f.sign(2, sgn_i(orient_i(&[s2(&a), s2(&b), s2(vc)])));
            let g2 = <F64Kernel as Kernel2>::orient2d(&pt(f, &s2(&a)), &pt(f, &s2(&b)), &pt(f, &s2(vc)));
            c.case();
            c.call(1);
            ensure!(g2.0.abs() < 1e-6 && w2 == 0 || sgn(&g2) == Some(w2), "kernel-2d", "kernel orient2d {a:?} {b:?} {vc:?} frame {}: {} vs {w2}", f.name, g2.0);
            for vd in &all {
                let w = f.sign(3, sgn_i(orient_i(&[a, b, *vc, *vd])));
                c.case();
                c.call(1);
                let g = <F64Kernel as Kernel3>::orient3d(&pt(f, &a), &pt(f, &b), &pt(f, vc), &pt(f, vd));
                let slack = 1e-6 * f.s.to_f64().abs().max(1.0);
                ensure!(g.0.abs() < slack && w == 0 || sgn(&g) == Some(w), "kernel-3d", "kernel orient3d {a:?} {b:?} {vc:?} {vd:?} frame {}: {} vs {w}", f.name, g.0);
                c.hit(match w { 0 => "flat", 1 => "positive", _ => "negative" });
            }
        }
        Ok(())
    })
}

fn with_tiny() -> Vec<Frame> {
    let mut v = frames();
    v.push(tiny());
    v.push(beyond());
    v
}

fn main() {
    let th = thorough();
    let n2 = if th { 7 } else { 5 };
    let fam = vec![
        sf::line(), sr::line(), sl::line(),
        sf::plane("plane", n2, frames(), false), sr::plane("plane", n2, frames(), false), sl::plane("plane", n2, frames(), false),
        sr::plane("plane-beyond", n2, vec![beyond()], false), sl::plane("plane-beyond", n2, vec![beyond()], false),
        sr::plane("plane-tiny", n2, vec![tiny()], true), sl::plane("plane-tiny", n2, vec![tiny()], true),
        sr::wide(), sl::wide(),
        sf::space(frames(), 3), sr::space(with_tiny(), 3), sl::space(with_tiny(), 3),
        sf::four(frames()), sr::four(frames()), sl::four(vec![tiny()]),
        sf::circle(frames(), if th { 6 } else { 5 }), sr::circle(frames(), if th { 6 } else { 5 }), sl::circle(frames(), if th { 6 } else { 4 }),
        kernel_family(),
    ];
    run_check("C04", Opts {
        rule: "every tuple of lattice points x frame x scalar type; sign compared with a permutation-expansion integer determinant".into(),
        assumptions: vec![
            "doubles are held to an exact zero only where every input is exactly representable".into(),
            "orient2d and incircle are documented to call values inside their tolerance band zero; features are kept far above it except in the wide family, where only a zero is allowed as deviation".into(),
        ],
        ..Default::default()
    }, fam)
}
