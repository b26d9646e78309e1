//! C07: segment-segment intersection.
use cgar::geometry::edge_edge_intersect::edge_edge_intersection_2;
use cgar::geometry::intersection::{
    SegmentIntersection2, SegmentIntersection3, segment_segment_intersection_2, segment_segment_intersection_3,
};
use cgar::geometry::point::Point;
use cgar::geometry::segment::Segment;
use mc::engine::*;
use mc::ensure;
use mc::geo::*;
use rug::Rational;

mc::per_scalar! {
    fn skip(f: &Frame) -> bool { !T::EXACT && f.exact_only }

    enum Got<const N: usize> { None, Point(Point<T, N>), Seg(Point<T, N>, Point<T, N>) }

    fn compare<const N: usize>(f: &Frame, got: Got<N>, want: &SegX, sig: &str, w: &dyn Fn() -> String) -> Res {
        let img = |v: &[Rational; 3]| -> [Rational; N] { std::array::from_fn(|i| f.qr(i, &v[i])) };
        let imi = |v: &I3| -> [Rational; N] { std::array::from_fn(|i| f.q(i, v[i])) };
        match (&got, want) {
            (Got::None, SegX::None) => Ok(()),
            (Got::Point(p), SegX::Point(q)) => {
                ensure!(same_pt(p, &img(q)), format!("{sig}-point"), "{}: got {} truth {q:?}", w(), show_pt(p));
                Ok(())
            }
            (Got::Seg(p, q), SegX::Overlap(a, b)) => {
                let (a, b) = (imi(a), imi(b));
                ensure!((same_pt(p, &a) && same_pt(q, &b)) || (same_pt(p, &b) && same_pt(q, &a)),
                    format!("{sig}-overlap"), "{}: got {}..{} truth {a:?}..{b:?}", w(), show_pt(p), show_pt(q));
                Ok(())
            }
            _ => {
                let g = match &got { Got::None => "nothing".to_string(), Got::Point(p) => format!("point {}", show_pt(p)), Got::Seg(p, q) => format!("segment {}..{}", show_pt(p), show_pt(q)) };
                fail(format!("{sig}-kind"), format!("{}: got {g}, truth {want:?}", w()))
            }
        }
    }

    pub fn plane(fr: Vec<Frame>, n: usize) -> Family {
        let m = n * n;
        let k = fr.len();
        family(&format!("{}/plane", T::NAME), (m * m * k) as u64, move |i, c| {
            let mut d = Dec(i);
            let f = &fr[d.take(k)];
            if skip(f) { return Ok(()); }
            let a: I2 = lat(d.take(m), n, 0);
            let b: I2 = lat(d.take(m), n, 0);
            let pts: Vec<(I2, Point<T, 2>)> = (0..m).map(|j| { let v: I2 = lat(j, n, 0); (v, pt::<T, 2>(f, &v)) }).collect();
            let s1 = Segment::<T, 2>::new(&pt(f, &a), &pt(f, &b));
            for (e, pe) in &pts {
                for (g, pg) in &pts {
                    let want = seg_seg_i(&up(&a), &up(&b), &up(e), &up(g));
                    // touching configurations are decided by rounding when doubles are inexact
                    let clear = T::EXACT || f.dyadic || clear_2(&a, &b, e, g);
                    if !clear { continue; }
                    let w = || format!("{a:?}-{b:?} x {e:?}-{g:?} frame {}", f.name);
                    c.case();
                    c.call(2);
                    let got = match segment_segment_intersection_2(&s1, &Segment::new(pe, pg)) {
                        SegmentIntersection2::None => Got::None,
                        SegmentIntersection2::Point(p) => Got::Point(p),
                        SegmentIntersection2::Overlapping(s) => Got::Seg(s.a, s.b),
                    };
                    compare(f, got, &want, "segments-2d", &w)?;
                    // the edge routine has no answer for parallel edges
                    let par = orient_i(&[[0, 0], [b[0] - a[0], b[1] - a[1]], [g[0] - e[0], g[1] - e[1]]]) == 0;
                    let ee = edge_edge_intersection_2(&s1.a, &s1.b, pe, pg);
                    if par {
                        ensure!(ee.is_none(), "edges-parallel", "{}: parallel edges gave a point", w());
                    } else {
                        compare(f, match ee { None => Got::None, Some(p) => Got::Point(p) }, &want, "edges-2d", &w)?;
                    }
                    c.hit(match want { SegX::None => "none", SegX::Point(_) => "point", SegX::Overlap(..) => "overlap" });
                }
            }
            c.sample(|| format!("segment {a:?}-{b:?} against every segment"));
            Ok(())
        })
    }
    pub fn space(fr: Vec<Frame>, n: usize) -> Family {
        let m = n * n * n;
        let k = fr.len();
        family(&format!("{}/space", T::NAME), (m * m * k) as u64, move |i, c| {
            let mut d = Dec(i);
            let f = &fr[d.take(k)];
            if skip(f) || (!T::EXACT && !f.dyadic) { return Ok(()); }
            let a: I3 = lat(d.take(m), n, 0);
            let b: I3 = lat(d.take(m), n, 0);
            let pts: Vec<(I3, Point<T, 3>)> = (0..m).map(|j| { let v: I3 = lat(j, n, 0); (v, pt::<T, 3>(f, &v)) }).collect();
            let s1 = Segment::<T, 3>::new(&pt(f, &a), &pt(f, &b));
            for (e, pe) in &pts {
                for (g, pg) in &pts {
                    let want = seg_seg_i(&a, &b, e, g);
                    let w = || format!("{a:?}-{b:?} x {e:?}-{g:?} frame {}", f.name);
                    c.case();
                    c.call(1);
                    let got = match segment_segment_intersection_3(&s1, &Segment::new(pe, pg)) {
                        SegmentIntersection3::None => Got::None,
                        SegmentIntersection3::Point(p) => Got::Point(p),
                        SegmentIntersection3::Overlapping(s) => Got::Seg(s.a, s.b),
                    };
                    compare(f, got, &want, "segments-3d", &w)?;
                    c.hit(match want { SegX::None => "none", SegX::Point(_) => "point", SegX::Overlap(..) => "overlap" });
                }
            }
            c.sample(|| format!("segment {a:?}-{b:?} against every segment"));
            Ok(())
        })
    }
}

/// no end point of either segment on the other's line
fn clear_2(a: &I2, b: &I2, c: &I2, d: &I2) -> bool {
    orient_i(&[*a, *b, *c]) != 0 && orient_i(&[*a, *b, *d]) != 0 && orient_i(&[*c, *d, *a]) != 0 && orient_i(&[*c, *d, *b]) != 0
}

fn with_tiny() -> Vec<Frame> {
    let mut v = frames();
    v.push(tiny());
    v.push(beyond());
    v
}

fn main() {
    let th = thorough();
    let lz = if th { with_tiny() } else { vec![frames().remove(0), tiny(), beyond()] };
    run_check(
        "C07",
        Opts {
            rule: "every pair of lattice segments (including single points) x frame x scalar type; compared with the exact intersection set".into(),
            assumptions: vec!["doubles with rounded inputs are checked only for configurations without touching or collinear parts".into()],
            ..Default::default()
        },
        vec![
            sf::plane(frames(), 5), sr::plane(with_tiny(), if th { 5 } else { 4 }), sl::plane(with_tiny(), if th { 5 } else { 4 }),
            sf::space(frames(), 3), sr::space(with_tiny(), 3), sl::space(lz, 3),
        ],
    )
}
