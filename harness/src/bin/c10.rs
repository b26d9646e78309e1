//! C10: the intersection of two triangles in space is the exact common part.
use cgar::geometry::point::Point;
use cgar::geometry::segment::Segment;
use cgar::geometry::tri_tri_intersect::*;
use mc::engine::*;
use mc::ensure;
use mc::geo::*;
use mc::tritri::*;
use rug::Rational;

fn tris(pts: &[I3]) -> Vec<[I3; 3]> {
    let mut v = vec![];
    for a in 0..pts.len() {
        for b in a + 1..pts.len() {
            for c in b + 1..pts.len() {
                if !collinear_i(&pts[a], &pts[b], &pts[c]) {
                    v.push([pts[a], pts[b], pts[c]]);
                }
            }
        }
    }
    v
}
const PERM: [[usize; 3]; 6] = [[0, 1, 2], [1, 2, 0], [2, 0, 1], [0, 2, 1], [2, 1, 0], [1, 0, 2]];

mc::per_scalar! {
    type P3 = Point<T, 3>;
    fn skip(f: &Frame) -> bool { !T::EXACT && f.exact_only }

    fn img(f: &Frame, x: &H) -> [Rational; 3] {
        std::array::from_fn(|i| f.qr(i, &Rational::from((x.n[i], x.d))))
    }
    fn eq(f: &Frame, p: &P3, x: &H) -> bool { same_pt(p, &img(f, x)) }
    fn show(s: &[(P3, P3)]) -> String {
        s.iter().map(|(a, b)| format!("{}-{}", show_pt(a), show_pt(b))).collect::<Vec<_>>().join(" ")
    }

    /// do the reported segments trace exactly the expected set?
    fn agree(f: &Frame, got: &[(P3, P3)], want: &Want) -> bool {
        match want {
            Want::Empty => got.is_empty(),
            Want::Point(x) => got.len() == 1 && eq(f, &got[0].0, x) && eq(f, &got[0].1, x),
            Want::Seg(x, y) => {
                // a degenerate two-sided boundary is tolerated as long as it is that segment
                got.len() == 1 && ((eq(f, &got[0].0, x) && eq(f, &got[0].1, y)) || (eq(f, &got[0].0, y) && eq(f, &got[0].1, x)))
            }
            Want::Poly(v) => {
                let m = v.len();
                got.len() == m && (0..m).all(|i| {
                    let (x, y) = (&v[i], &v[(i + 1) % m]);
                    got.iter().filter(|(a, b)| (eq(f, a, x) && eq(f, b, y)) || (eq(f, a, y) && eq(f, b, x))).count() == 1
                })
            }
        }
    }

    fn plain(r: TriTriIntersectionResult<T, 3>) -> Vec<(P3, P3)> {
        let g = |s: Segment<T, 3>| (s.a.clone(), s.b.clone());
        match r {
            TriTriIntersectionResult::None => vec![],
            TriTriIntersectionResult::Proper(s) | TriTriIntersectionResult::Coplanar(s) => vec![g(s)],
            TriTriIntersectionResult::CoplanarPolygon(v) => v.into_iter().map(g).collect(),
        }
    }
    fn infos(r: TriTriIntersectionDetailed<T, 3>) -> Vec<[EndpointInfo<T, 3>; 2]> {
        match r {
            TriTriIntersectionDetailed::None => vec![],
            TriTriIntersectionDetailed::Proper { ends } => vec![ends],
            TriTriIntersectionDetailed::Coplanar { segs } => segs,
        }
    }

    fn contact_ok(c: &ContactOnTri<T>, x: &H, t: &[I3; 3]) -> bool {
        let (b, s) = bary(x, t);
        let zeros = b.iter().filter(|v| **v == 0).count();
        if !T::EXACT {
            // doubles may miss an edge by rounding: the described position must still be the right one
            let z = T::of(&Rational::new());
            let o = T::of(&Rational::from(1));
            let mut g: [T; 3] = std::array::from_fn(|_| z.clone());
            match c {
                ContactOnTri::Vertex(i) if *i < 3 => g[*i] = o,
                ContactOnTri::Edge { e, u } if e.0 < 3 && e.1 < 3 && e.0 != e.1 => {
                    g[e.1] = u.clone();
                    g[e.0] = &o - u;
                }
                ContactOnTri::Interior { bary } => g = [bary.0.clone(), bary.1.clone(), bary.2.clone()],
                _ => return false,
            }
            return (0..3).all(|i| same(&g[i], &Rational::from((b[i], s))));
        }
        match c {
            ContactOnTri::Vertex(i) => *i < 3 && zeros == 2 && b[*i] != 0,
            ContactOnTri::Edge { e, u } => {
                let (i, j) = *e;
                if i >= 3 || j >= 3 || i == j { return false; }
                let k = 3 - i - j;
                // an edge contact that is really a vertex would be imprecise: only exact classes pass
                zeros == 1 && b[k] == 0 && same(u, &Rational::from((b[j], s)))
            }
            ContactOnTri::Interior { bary } => {
                zeros == 0 && same(&bary.0, &Rational::from((b[0], s))) && same(&bary.1, &Rational::from((b[1], s))) && same(&bary.2, &Rational::from((b[2], s)))
            }
        }
    }

    fn check(f: &Frame, p: &[I3; 3], q: &[I3; 3], c: &mut Ctx) -> Res {
        let want = truth(p, q);
        let flat = p.iter().all(|v| side(&hi(v), &plane(q)) == 0);
        let gp = p.map(|v| pt::<T, 3>(f, &v));
        let gq = q.map(|v| pt::<T, 3>(f, &v));
        let (rp, rq) = ([&gp[0], &gp[1], &gp[2]], [&gq[0], &gq[1], &gq[2]]);
        c.case();
        c.call(5);
        let (a, b) = (TriPrecomp::new(&rp), TriPrecomp::new(&rq));
        ensure!(!a.degenerate && !b.degenerate, "degenerate", "{p:?} {q:?} frame {}: triangle with area called degenerate", f.name);
        // touching coplanar triangles in one point may be left out
        let ok = |g: &[(P3, P3)]| agree(f, g, &want) || (flat && g.is_empty() && matches!(want, Want::Point(_)));
        for (name, g) in [
            ("plain", plain(tri_tri_intersection(&rp, &rq))),
            ("precomp", plain(tri_tri_intersection_with_precomp(&rp, &rq, &a, &b))),
            ("precomp-p", plain(tri_tri_intersection_with_precomp_p(&rp, &rq, &a))),
        ] {
            ensure!(ok(&g), format!("{name}{}", if flat { "-coplanar" } else { "" }), "{p:?} {q:?} frame {}: got [{}], truth {want:?}", f.name, show(&g));
        }
        for (name, r) in [
            ("detailed", tri_tri_intersection_detailed(&rp, &rq)),
            ("precomp-detailed", tri_tri_intersection_with_precomp_detailed(&rp, &rq, &a, &b)),
        ] {
            let v = infos(r);
            let g: Vec<(P3, P3)> = v.iter().map(|[x, y]| (x.point.clone(), y.point.clone())).collect();
            ensure!(ok(&g), format!("{name}{}", if flat { "-coplanar" } else { "" }), "{p:?} {q:?} frame {}: got [{}], truth {want:?}", f.name, show(&g));
            let corners: Vec<H> = match &want { Want::Empty => vec![], Want::Point(x) => vec![*x], Want::Seg(x, y) => vec![*x, *y], Want::Poly(v) => v.clone() };
            for e in v.iter().flatten() {
                let x = corners.iter().find(|x| eq(f, &e.point, x)).unwrap();
                ensure!(contact_ok(&e.on_p, x, p), format!("{name}-contact-p"), "{p:?} {q:?} frame {}: contact {:?} at {x:?}", f.name, e.on_p);
                ensure!(contact_ok(&e.on_q, x, q), format!("{name}-contact-q"), "{p:?} {q:?} frame {}: contact {:?} at {x:?}", f.name, e.on_q);
            }
        }
        c.hit(match (&want, flat) {
            (Want::Empty, _) => "apart",
            (Want::Point(_), false) => "touch in a point",
            (Want::Point(_), true) => "coplanar, touch in a point",
            (Want::Seg(..), false) => "common segment",
            (Want::Seg(..), true) => "coplanar, common segment",
            (Want::Poly(_), _) => "coplanar, common polygon",
        });
        Ok(())
    }

    /// every pair of triangles over the points; every corner order, or one per pair
    pub fn pairs(name: &str, pts: Vec<I3>, orders: bool, fr: Vec<Frame>) -> Family {
        let ts = tris(&pts);
        let m = ts.len();
        let k = fr.len();
        family(&format!("{}/{name}", T::NAME), m as u64, move |i, c| {
            let p0 = ts[i as usize];
            for (j, q0) in ts.iter().enumerate() {
                c.tick();
                if orders {
                    for x in 0..36 {
                        let (s, t) = (PERM[x % 6], PERM[x / 6]);
                        let f = &fr[(i as usize + j + x) % k];
                        if skip(f) { continue; }
                        check(f, &[p0[s[0]], p0[s[1]], p0[s[2]]], &[q0[t[0]], q0[t[1]], q0[t[2]]], c)?;
                    }
                } else {
                    let x = (i as usize * 7 + j * 5) % 36;
                    let (s, t) = (PERM[x % 6], PERM[x / 6]);
                    let f = &fr[(i as usize + j) % k];
                    if skip(f) { continue; }
                    check(f, &[p0[s[0]], p0[s[1]], p0[s[2]]], &[q0[t[0]], q0[t[1]], q0[t[2]]], c)?;
                }
            }
            c.sample(|| format!("{p0:?} against every triangle"));
            Ok(())
        })
    }

    /// planar helpers: segment intersection and convex hull
    pub fn planar() -> Family {
        let fr = frames();
        let k = fr.len();
        family(&format!("{}/segments-2d", T::NAME), (k * 81 * 9) as u64, move |i, c| {
            let mut d = Dec(i);
            let f = &fr[d.take(k)];
            if skip(f) { return Ok(()); }
            let a: I2 = lat(d.take(9), 3, 0);
            let b: I2 = lat(d.take(9), 3, 0);
            let e: I2 = lat(d.take(9), 3, 0);
            if a == b { return Ok(()); }
            for j in 0..9 {
                let g: I2 = lat(j, 3, 0);
                if g == e { continue; }
                c.case();
                c.call(1);
                let m = |x: &I2| pt::<T, 2>(f, x);
                let r = segment_intersect_2d(&m(&a), &m(&b), &m(&e), &m(&g));
                let want = seg_seg_i(&up(&a), &up(&b), &up(&e), &up(&g));
                let at = |p: &Point<T, 2>, x: &[Rational; 3]| (0..2).all(|i| same(&p[i], &f.qr(i, &x[i])));
                let qi = |v: &I3| v.map(|x| Rational::from(x));
                let ok = match (&r, &want) {
                    (None, SegX::None) => true,
                    (Some(s), SegX::Point(x)) => at(&s.a, x) && at(&s.b, x),
                    (Some(s), SegX::Overlap(x, y)) => (at(&s.a, &qi(x)) && at(&s.b, &qi(y))) || (at(&s.a, &qi(y)) && at(&s.b, &qi(x))),
                    _ => false,
                };
                ensure!(ok, "segment-2d", "{a:?}-{b:?} {e:?}-{g:?} frame {}: {r:?}, truth {want:?}", f.name);
            }
            Ok(())
        })
    }

    pub fn hulls(n: usize) -> Family {
        let fr = frames();
        let k = fr.len();
        let tot = 9usize.pow(n as u32 - 1);
        family(&format!("{}/hull-{n}", T::NAME), (k * tot) as u64, move |i, c| {
            let mut d = Dec(i);
            let f = &fr[d.take(k)];
            if skip(f) { return Ok(()); }
            let base: Vec<I2> = (1..n).map(|_| lat(d.take(9), 3, 0)).collect();
            for j in 0..9 {
                let mut v = base.clone();
                v.push(lat(j, 3, 0));
                // distinct points, as the callers guarantee
                let mut u = v.clone();
                u.sort();
                u.dedup();
                if u.len() != n { continue; }
                c.case();
                c.call(1);
                let pts: Vec<Point<T, 2>> = v.iter().map(|x| pt::<T, 2>(f, x)).collect();
                let got = convex_hull_2d_indices(&pts);
                // extreme points: not inside the hull of the others, tested by strict separation of a triangle or segment
                let extreme = |x: usize| {
                    let o: Vec<&I2> = (0..n).filter(|y| *y != x).map(|y| &v[y]).collect();
                    let z = up(&v[x]);
                    let mut inside = false;
                    for a in 0..o.len() { for b in a + 1..o.len() {
                        inside |= on_segment_i(&z, &up(o[a]), &up(o[b]));
                        for e in b + 1..o.len() {
                            let l = tri_loc_i(&z, &up(o[a]), &up(o[b]), &up(o[e]));
                            inside |= l == Loc::In || l == Loc::Edge;
                        }
                    }}
                    !inside
                };
                let mut want: Vec<usize> = (0..n).filter(|x| extreme(*x)).collect();
                let mut g = got.clone();
                g.sort();
                want.sort();
                ensure!(g == want, "hull-points", "{v:?} frame {}: hull {got:?}, extreme points {want:?}", f.name);
                // cyclic order: every consecutive turn has the same sign
                let m = got.len();
                if m >= 3 {
                    let s: Vec<i32> = (0..m).map(|x| sgn_i(orient_i(&[v[got[x]], v[got[(x + 1) % m]], v[got[(x + 2) % m]]]))).collect();
                    ensure!(s.iter().all(|x| *x != 0 && *x == s[0]), "hull-order", "{v:?} frame {}: hull {got:?}", f.name);
                }
            }
            Ok(())
        })
    }
}

fn grid(a: i64, b: i64, c: i64) -> Vec<I3> {
    let mut v = vec![];
    for x in 0..a {
        for y in 0..b {
            for z in 0..c {
                v.push([x, y, z]);
            }
        }
    }
    v
}
fn pick(ix: &[usize]) -> Vec<Frame> {
    let mut v: Vec<Option<Frame>> = frames().into_iter().chain([beyond()]).map(Some).collect();
    ix.iter().map(|&i| v[i].take().unwrap()).collect()
}

fn main() {
    let th = thorough();
    run_check(
        "C10",
        Opts {
            rule: "every pair of lattice triangles with area (every corner order on the smaller lattices), compared with exact clipping in integers".into(),
            assumptions: vec![
                "triangles have area".into(),
                "coplanar triangles that touch in a single point may be reported as not meeting".into(),
            ],
            ..Default::default()
        },
        vec![
            sf::pairs("cube-all-orders", grid(2, 2, 2), true, pick(&[0, 1, 3])),
            sr::pairs("cube-all-orders", grid(2, 2, 2), true, frames()),
            sl::pairs("cube-all-orders", grid(2, 2, 2), true, frames()),
            sr::pairs("cube-beyond", grid(2, 2, 2), false, pick(&[6])),
            sl::pairs("cube-beyond", grid(2, 2, 2), false, pick(&[6])),
            sf::pairs("grid-333", grid(3, 3, 3), false, pick(&[0, 1, 3])),
            sf::pairs("grid-233", grid(2, 3, 3), false, pick(&[0, 1, 3])),
            sr::pairs("grid-232", if th { grid(3, 3, 2) } else { grid(2, 3, 2) }, false, frames()),
            sr::pairs("grid-322", grid(3, 2, 2), false, frames()),
            sl::pairs("grid-223", if th { grid(2, 3, 3) } else { grid(2, 2, 3) }, false, frames()),
            sf::planar(), sr::planar(), sl::planar(),
            sf::hulls(3), sf::hulls(4), sf::hulls(5), sr::hulls(4), sl::hulls(3),
        ],
    )
}
