//! C06: point against triangle, in the plane and in space.
use cgar::geometry::util::barycentric_coords;
use cgar::kernel::point_in_or_on_triangle;
use cgar::kernel::predicates::{TrianglePoint, point_in_or_on_triangle_old};
use mc::engine::*;
use mc::ensure;
use mc::geo::*;
use rug::Rational;

fn loc(t: TrianglePoint) -> Loc {
    match t {
        TrianglePoint::Off => Loc::Off,
        TrianglePoint::OnEdge => Loc::Edge,
        TrianglePoint::OnVertex => Loc::Vertex,
        TrianglePoint::In => Loc::In,
    }
}

/// areas of pbc, pca, pab relative to abc, exact (p in the plane of abc)
fn bary_i(p: &I3, a: &I3, b: &I3, c: &I3) -> Option<[Rational; 3]> {
    let n = cross3(&sub(b, a), &sub(c, a));
    let nn = dot(&n, &n);
    if nn == 0 {
        return None;
    }
    let ar = |u: &I3, v: &I3| Rational::from((dot(&cross3(&sub(u, p), &sub(v, p)), &n), nn));
    Some([ar(b, c), ar(c, a), ar(a, b)])
}

mc::per_scalar! {
    fn skip(f: &Frame) -> bool { !T::EXACT && f.exact_only }
    fn judge(f: &Frame, got: TrianglePoint, want: Loc, sig: &str, w: &dyn Fn() -> String) -> Res {
        let g = loc(got);
        let want_g = if want == Loc::Degenerate { Loc::Off } else { want };
        // rounded doubles may fall to either side of an edge they lie on
        if !T::EXACT && !f.dyadic && matches!(want, Loc::Edge | Loc::Vertex | Loc::Degenerate) { return Ok(()); }
        ensure!(g == want_g, sig, "{}: got {g:?}, truth {want:?}", w());
        Ok(())
    }
    fn bary(got: Option<(T, T, T)>, want: &Option<[Rational; 3]>, w: &dyn Fn() -> String) -> Res {
        match (got, want) {
            (None, None) => Ok(()),
            (Some((u, v, x)), Some(q)) => {
                ensure!(same(&u, &q[0]) && same(&v, &q[1]) && same(&x, &q[2]), "barycentric", "{}: got ({u:?},{v:?},{x:?}) truth {q:?}", w());
                Ok(())
            }
            (g, q) => fail("barycentric-degenerate", format!("{}: got {:?}, truth {q:?}", w(), g.is_some())),
        }
    }
    pub fn plane(fr: Vec<Frame>, n: usize) -> Family {
        let m = n * n;
        let k = fr.len();
        family(&format!("{}/plane", T::NAME), (m * m * m * k) as u64, move |i, c| {
            let mut d = Dec(i);
            let f = &fr[d.take(k)];
            if skip(f) { return Ok(()); }
            let a: I2 = lat(d.take(m), n, 0);
            let b: I2 = lat(d.take(m), n, 0);
            let e: I2 = lat(d.take(m), n, 0);
            let (pa, pb, pe) = (pt::<T, 2>(f, &a), pt::<T, 2>(f, &b), pt::<T, 2>(f, &e));
            for j in 0..m {
                let p: I2 = lat(j, n, 0);
                let pp = pt::<T, 2>(f, &p);
                let want = tri_loc_i(&up(&p), &up(&a), &up(&b), &up(&e));
                let w = || format!("p={p:?} in {a:?} {b:?} {e:?} frame {}", f.name);
                c.case();
                c.call(3);
                judge(f, point_in_or_on_triangle(&pp, &pa, &pb, &pe), want, "locate-2d", &w)?;
                if f.name != "tiny" {
                    judge(f, point_in_or_on_triangle_old(&pp, &pa, &pb, &pe), want, "locate-old-2d", &w)?;
                }
                if T::EXACT || f.dyadic || want != Loc::Degenerate {
                    bary(barycentric_coords(&pp, &pa, &pb, &pe), &bary_i(&up(&p), &up(&a), &up(&b), &up(&e)), &w)?;
                }
                c.hit(&format!("{want:?}"));
            }
            c.sample(|| format!("triangle {a:?} {b:?} {e:?} against every lattice point"));
            Ok(())
        })
    }
    pub fn space(fr: Vec<Frame>, n: usize) -> Family {
        let m = n * n * n;
        let k = fr.len();
        family(&format!("{}/space", T::NAME), (m * m * k) as u64, move |i, c| {
            let mut d = Dec(i);
            let f = &fr[d.take(k)];
            if skip(f) { return Ok(()); }
            let a: I3 = lat(d.take(m), n, 0);
            let b: I3 = lat(d.take(m), n, 0);
            let (pa, pb) = (pt::<T, 3>(f, &a), pt::<T, 3>(f, &b));
            for l in 0..m {
                let e: I3 = lat(l, n, 0);
                let pe = pt::<T, 3>(f, &e);
                for j in 0..m {
                    let p: I3 = lat(j, n, 0);
                    // only points of the triangle's plane
                    if orient_i(&[a, b, e, p]) != 0 { continue; }
                    let pp = pt::<T, 3>(f, &p);
                    let want = tri_loc_i(&p, &a, &b, &e);
                    let w = || format!("p={p:?} in {a:?} {b:?} {e:?} frame {}", f.name);
                    c.case();
                    c.call(3);
                    judge(f, point_in_or_on_triangle(&pp, &pa, &pb, &pe), want, "locate-3d", &w)?;
                    if f.name != "tiny" {
                        judge(f, point_in_or_on_triangle_old(&pp, &pa, &pb, &pe), want, "locate-old-3d", &w)?;
                    }
                    if T::EXACT || f.dyadic || want != Loc::Degenerate {
                        bary(barycentric_coords(&pp, &pa, &pb, &pe), &bary_i(&p, &a, &b, &e), &w)?;
                    }
                    c.hit(&format!("{want:?}"));
                }
            }
            c.sample(|| format!("triangles {a:?} {b:?} * against every coplanar lattice point"));
            Ok(())
        })
    }
}

fn with_tiny() -> Vec<Frame> {
    let mut v = frames();
    v.push(tiny());
    v.push(beyond());
    v
}

fn main() {
    let th = thorough();
    let n = if th { 5 } else { 4 };
    run_check(
        "C06",
        Opts {
            rule: "every triangle and point over the lattice (in space: every coplanar point) x frame x scalar type; compared with integer incidence".into(),
            assumptions: vec![
                "in space only points of the triangle's own plane have a defined location".into(),
                "doubles with rounded inputs are checked only for points clearly inside or outside".into(),
            ],
            ..Default::default()
        },
        vec![
            sf::plane(frames(), 5), sr::plane(with_tiny(), n), sl::plane(with_tiny(), n),
            sf::space(frames(), 3), sr::space(with_tiny(), 3), sl::space(if th { with_tiny() } else { vec![frames().remove(1), beyond()] }, 3),
        ],
    )
}
