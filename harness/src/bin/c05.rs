//! C05: point / line / segment incidence predicates.
use cgar::geometry::segment::{Segment, SegmentOps};
use cgar::kernel::f64_kernel::F64Kernel;
use cgar::kernel::{
    Kernel2, Kernel3, are_approximately_equal, are_collinear, are_equal, is_point_on_segment, point_u_on_segment,
    point_u_on_segment_with_tolerance, triangle_is_degenerate,
};
use mc::engine::*;
use mc::ensure;
use mc::geo::*;
use rug::Rational;

mc::per_scalar! {
    fn skip(f: &Frame) -> bool { !T::EXACT && f.exact_only }

    /// every triple (p, a, b): p against the segment ab
    fn triple<const N: usize>(f: &Frame, p: &[i64; N], a: &[i64; N], b: &[i64; N], c: &mut Ctx,
        collinear: impl Fn(&cgar::geometry::point::Point<T, N>, &cgar::geometry::point::Point<T, N>, &cgar::geometry::point::Point<T, N>) -> [bool; 2],
        us: impl Fn(&cgar::geometry::point::Point<T, N>, &Segment<T, N>, &T) -> (bool, Option<T>, Option<T>),
        seg: impl Fn(&Segment<T, N>, &cgar::geometry::point::Point<T, N>) -> (bool, T, T),
    ) -> Res {
        // doubles with rounded inputs cannot decide exact incidence
        let strict = T::EXACT || f.dyadic;
        let (pp, pa, pb) = (pt::<T, N>(f, p), pt::<T, N>(f, a), pt::<T, N>(f, b));
        let w = || format!("p={p:?} a={a:?} b={b:?} frame {}", f.name);
        c.case();
        c.call(9);
        ensure!(are_equal(&pa, &pb) == (a == b), "equal", "are_equal(a,b) wrong: {}", w());
        if f.name != "tiny" {
            ensure!(are_approximately_equal(&pa, &pb) == (a == b), "approx-equal", "are_approximately_equal(a,b) wrong: {}", w());
        }
        let col = collinear_i(p, a, b);
        let on = on_segment_i(p, a, b);
        if strict || !col {
            let [g, deg] = collinear(&pp, &pa, &pb);
            ensure!(g == col, "collinear", "are_collinear(p,a,b)={g}, truth {col}: {}", w());
            ensure!(deg == col, "degenerate", "triangle_is_degenerate(p,a,b)={deg}, truth {col}: {}", w());
        }
        let s = Segment::<T, N>::new(&pa, &pb);
        let (_, u_true) = seg_dist2(p, a, b);
        // distance threshold: half a lattice step
        let half = Rational::from(f.s.abs_ref()) / 2;
        let (g, u, ut) = us(&pp, &s, &T::of(&half));
        let (_, _, uw) = us(&pp, &s, &T::of(&(half * 3)));
        if strict || !col {
            ensure!(g == on, "on-segment", "is_point_on_segment={g}, truth {on}: {}", w());
            let want = if on { Some(u_true.clone().unwrap_or(Rational::new())) } else { None };
            match (&u, &want) {
                (None, None) => {}
                (Some(x), Some(y)) => ensure!(same(x, y), "parameter", "point_u_on_segment={x:?}, truth {y}: {}", w()),
                _ => return fail("parameter", format!("point_u_on_segment={u:?}, truth {want:?}: {}", w())),
            }
        }
        // within-tolerance variant (thresholds in half lattice steps, never met with equality unless exact):
        // half a step takes in no other lattice point of a single-point segment, one and a half steps do
        let (d2, ul) = seg_dist2(p, a, b);
        for (k, got) in [(1, &ut), (3, &uw)] {
            let q4 = Rational::from((k * k, 4));
            if T::EXACT || d2 != q4 {
                let near = d2 <= q4;
                ensure!(got.is_some() == near, "near-segment", "within {k} half steps: got {got:?}, squared distance {d2} steps: {}", w());
                if let (Some(x), Some(y)) = (got, &ul) {
                    ensure!(same(x, y), "near-parameter", "parameter {x:?}, truth {y}: {}", w());
                }
            }
        }
        let (son, par, len2) = seg(&s, &pp);
        if (strict || !col) && f.name != "tiny" {
            ensure!(son == on, "segment-contains", "Segment::is_point_on={son}, truth {on}: {}", w());
        }
        let want = ul.unwrap_or(Rational::new());
        ensure!(same(&par, &want), "segment-parameter", "Segment::parameter_of_point={par:?}, truth {want}: {}", w());
        let ab = sub(b, a);
        ensure!(same(&len2, &f.det(2, dot(&ab, &ab))), "segment-length2", "Segment::length2={len2:?}: {}", w());
        c.hit(if on { "on" } else if col { "on-line" } else { "off" });
        c.sample(w);
        Ok(())
    }


    pub fn plane(fr: Vec<Frame>, n: usize) -> Family {
        let m = n * n;
        let k = fr.len();
        family(&format!("{}/plane", T::NAME), (m * m * k) as u64, move |i, c| {
            let mut d = Dec(i);
            let f = &fr[d.take(k)];
            if skip(f) { return Ok(()); }
            let p: I2 = lat(d.take(m), n, 0);
            let a: I2 = lat(d.take(m), n, 0);
            for j in 0..m {
                triple(f, &p, &a, &lat(j, n, 0), c,
                    |p, a, b| [are_collinear(p, a, b), triangle_is_degenerate(p, a, b)],
                    |p, s, t| (is_point_on_segment(p, s), point_u_on_segment(&s.a, &s.b, p), point_u_on_segment_with_tolerance(&s.a, &s.b, p, t)),
                    |s, p| (s.is_point_on(p), s.parameter_of_point(p), s.length2()))?;
            }
            Ok(())
        })
    }
    pub fn space(fr: Vec<Frame>, n: usize) -> Family {
        let m = n * n * n;
        let k = fr.len();
        family(&format!("{}/space", T::NAME), (m * m * k) as u64, move |i, c| {
            let mut d = Dec(i);
            let f = &fr[d.take(k)];
            if skip(f) { return Ok(()); }
            let p: I3 = lat(d.take(m), n, 0);
            let a: I3 = lat(d.take(m), n, 0);
            for j in 0..m {
                triple(f, &p, &a, &lat(j, n, 0), c,
                    |p, a, b| [are_collinear(p, a, b), triangle_is_degenerate(p, a, b)],
                    |p, s, t| (is_point_on_segment(p, s), point_u_on_segment(&s.a, &s.b, p), point_u_on_segment_with_tolerance(&s.a, &s.b, p, t)),
                    |s, p| (s.is_point_on(p), s.parameter_of_point(p), s.length2()))?;
            }
            Ok(())
        })
    }
}

fn kernel_family() -> Family {
    let fr = frames();
    let k = fr.len();
    family("f64-kernel", (k * 27 * 27) as u64, move |i, c| {
        let mut d = Dec(i);
        let f = &fr[d.take(k)];
        if f.exact_only || !f.dyadic {
            return Ok(());
        }
        let p: I3 = lat(d.take(27), 3, 0);
        let a: I3 = lat(d.take(27), 3, 0);
        for j in 0..27 {
            let b: I3 = lat(j, 3, 0);
            c.case();
            c.call(8);
            let (pp, pa, pb) = (pt(f, &p), pt(f, &a), pt(f, &b));
            let w = || format!("p={p:?} a={a:?} b={b:?} frame {}", f.name);
            ensure!(<F64Kernel as Kernel3>::are_equal3(&pa, &pb) == (a == b), "kernel-equal3", "{}", w());
            ensure!(<F64Kernel as Kernel3>::are_collinear3(&pp, &pa, &pb) == collinear_i(&p, &a, &b), "kernel-collinear3", "{}", w());
            let on = on_segment_i(&p, &a, &b);
            ensure!(<F64Kernel as Kernel3>::is_point_on_segment3(&pp, &Segment::new(&pa, &pb)) == on, "kernel-on3", "{}", w());
            ensure!(<F64Kernel as Kernel3>::point_u_on_segment3(&pa, &pb, &pp).is_some() == on, "kernel-u3", "{}", w());
            let s2 = |v: &I3| [v[0], v[1]];
            let (p2, a2, b2) = (s2(&p), s2(&a), s2(&b));
            let (pp, pa, pb) = (pt(f, &p2), pt(f, &a2), pt(f, &b2));
            ensure!(<F64Kernel as Kernel2>::are_equal2(&pa, &pb) == (a2 == b2), "kernel-equal2", "{}", w());
            ensure!(<F64Kernel as Kernel2>::are_collinear2(&pp, &pa, &pb) == collinear_i(&p2, &a2, &b2), "kernel-collinear2", "{}", w());
            let on = on_segment_i(&p2, &a2, &b2);
            ensure!(<F64Kernel as Kernel2>::is_point_on_segment2(&pp, &Segment::new(&pa, &pb)) == on, "kernel-on2", "{}", w());
            ensure!(<F64Kernel as Kernel2>::point_u_on_segment2(&pa, &pb, &pp).is_some() == on, "kernel-u2", "{}", w());
            c.hit(if on { "on" } else { "off" });
        }
        Ok(())
    })
}

fn with_tiny() -> Vec<Frame> {
    let mut v = frames();
    v.push(tiny());
    v.push(beyond());
    v
}

fn main() {
    let th = thorough();
    let n2 = if th { 6 } else { 5 };
    let n3 = if th { 4 } else { 3 };
    run_check(
        "C05",
        Opts {
            rule: "every (point, end, end) triple of lattice points x frame x scalar type; compared with integer cross products and exact rational parameters".into(),
            assumptions: vec!["doubles decide exact incidence only where inputs are exactly representable; elsewhere only clear negatives are checked".into()],
            ..Default::default()
        },
        vec![
            sf::plane(frames(), n2), sr::plane(with_tiny(), n2), sl::plane(with_tiny(), n2),
            sf::space(frames(), n3), sr::space(with_tiny(), n3), sl::space(with_tiny(), n3),
            kernel_family(),
        ],
    )
}
