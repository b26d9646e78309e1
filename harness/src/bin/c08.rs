//! C08: vector, point, segment, matrix and plane algebra.
use cgar::geometry::canonical_edge::CanonicalEdge;
use cgar::geometry::matrix::Matrix;
use cgar::geometry::plane::{Plane, PlaneOps};
use cgar::geometry::point::{Point, PointOps};
use cgar::geometry::segment::{Segment, SegmentOps};
use cgar::geometry::spatial_element::SpatialElement;
use cgar::geometry::vector::{Cross2, Cross3, Vector, VectorOps};
use cgar::mesh_processing::batching::face_uv_frame_metric;
use cgar::numeric::cgar_f64::CgarF64;
use cgar::numeric::cgar_rational::CgarRational;
use cgar::numeric::lazy_exact::LazyExact;
use cgar::operations::Zero;
use mc::engine::*;
use mc::ensure;
use mc::geo::*;
use mc::num::hash_of;
use rug::Rational;

/// linear frames (no offset): value = s * k
fn lin() -> Vec<Frame> {
    let z = || [Rational::new(), Rational::new(), Rational::new(), Rational::new()];
    vec![
        Frame { name: "unit", s: Rational::from(1), off: z(), dyadic: true, exact_only: false },
        Frame { name: "third", s: Rational::from((1, 3)), off: z(), dyadic: false, exact_only: false },
        Frame { name: "neg", s: Rational::from(-4096), off: z(), dyadic: true, exact_only: false },
        Frame { name: "vast", s: Rational::from((rug::Integer::from(1) << 200u32, 3)), off: z(), dyadic: false, exact_only: true },
    ]
}

fn rq(f: &Frame, v: i128) -> Rational {
    Rational::from(&f.s * Rational::from(v))
}

fn det_q(m: &[Vec<i64>]) -> i128 {
    det_perm(&m.iter().map(|r| r.iter().map(|&x| x as i128).collect()).collect::<Vec<_>>())
}

mc::per_scalar! {
    fn veq<const N: usize>(v: &Vector<T, N>, w: &[Rational; N]) -> bool { same_pt(&v.0, w) }

    macro_rules! common {
        ($f:expr, $a:expr, $b:expr, $c:expr, $N:expr, $w:expr) => {{
            let f: &Frame = $f;
            let (a, b): (&[i64; $N], &[i64; $N]) = ($a, $b);
            let ia: [i128; $N] = a.map(|x| x as i128);
            let ib: [i128; $N] = b.map(|x| x as i128);
            let (va, vb) = (Vector::<T, $N>(pt(f, a)), Vector::<T, $N>(pt(f, b)));
            let w = $w;
            let lift = |v: [i128; $N]| -> [Rational; $N] { v.map(|x| rq(f, x)) };
            let add: [i128; $N] = std::array::from_fn(|i| ia[i] + ib[i]);
            let dif: [i128; $N] = std::array::from_fn(|i| ia[i] - ib[i]);
            ensure!(same(&va.dot(&vb), &f.det(2, dot(&ia, &ib))), "dot", "dot {}", w());
            ensure!(same(&va.norm2(), &f.det(2, dot(&ia, &ia))), "norm2", "norm2 {}", w());
            ensure!(veq(&(&va + &vb), &lift(add)), "vector-add", "&a+&b {}", w());
            ensure!(veq(&(&va - &vb), &lift(dif)), "vector-sub", "&a-&b {}", w());
            ensure!(veq(&(va.clone() + vb.clone()), &lift(add)), "vector-add-owned", "a+b {}", w());
            ensure!(veq(&(va.clone() - vb.clone()), &lift(dif)), "vector-sub-owned", "a-b {}", w());
            ensure!(veq(&(-va.clone()), &lift(ia.map(|x| -x))), "vector-neg", "-a {}", w());
            let k = Rational::from((3, 2));
            let kt = T::of(&k);
            ensure!(veq(&va.scale(&kt), &lift(ia).map(|x| x * &k)), "scale", "scale 3/2 {}", w());
            let mut ax = va.clone();
            ax.axpy(&kt, &vb);
            let want: [Rational; $N] = std::array::from_fn(|i| rq(f, ia[i]) + rq(f, ib[i]) * &k);
            ensure!(veq(&ax, &want), "axpy", "a + 3/2 b {}", w());
            // equality, order and hashing of vectors and points go by value, first coordinate first
            let (pa, pb) = (pt::<T, $N>(f, a), pt::<T, $N>(f, b));
            let qa: Vec<Rational> = (0..$N).map(|i| f.q(i, a[i])).collect();
            let qb: Vec<Rational> = (0..$N).map(|i| f.q(i, b[i])).collect();
            ensure!((va == vb) == (a == b) && (pa == pb) == (a == b), "equality", "a==b {}", w());
            ensure!(va.partial_cmp(&vb) == qa.partial_cmp(&qb) && pa.partial_cmp(&pb) == qa.partial_cmp(&qb), "order", "order of a and b {}", w());
            if a == b {
                ensure!(hash_of(&va) == hash_of(&vb) && hash_of(&pa) == hash_of(&pb), "hash", "hash {}", w());
            }
            ensure!(va.is_zero() == (*a == [0; $N]), "is-zero", "a is zero {}", w());
            ensure!(same_pt(&(&pa + &pb), &lift(add)) && same_pt(&(pa.clone() + pb.clone()), &lift(add)), "point-add", "{}", w());
            ensure!(same_pt(&(&pa - &pb), &lift(dif)) && same_pt(&(pa.clone() - pb.clone()), &lift(dif)), "point-sub", "{}", w());
            // conversions between scalar types keep the value
            let back: Point<LazyExact, $N> = pa.cast::<LazyExact>();
            ensure!((0..$N).all(|i| back[i].val() == pa[i].val()), "cast", "cast to lazy {}", w());
            $c.case();
            $c.call(20);
        }};
    }
    macro_rules! pointy {
        ($f:expr, $a:expr, $b:expr, $N:expr, $w:expr) => {{
            let f: &Frame = $f;
            let (a, b): (&[i64; $N], &[i64; $N]) = ($a, $b);
            let w = $w;
            let (pa, pb) = (pt::<T, $N>(f, a), pt::<T, $N>(f, b));
            let mid: [Rational; $N] = std::array::from_fn(|i| rq(f, (a[i] + b[i]) as i128) / 2);
            let dif: [Rational; $N] = std::array::from_fn(|i| rq(f, (b[i] - a[i]) as i128));
            let add: [Rational; $N] = std::array::from_fn(|i| rq(f, (b[i] + a[i]) as i128));
            ensure!(same_pt(&PointOps::midpoint(&pa, &pb), &mid), "point-midpoint", "{}", w());
            ensure!(veq(&pa.vector_to(&pb), &dif), "vector-to", "{}", w());
            ensure!(same_pt(&pa.add_vector(&pb.as_vector()), &add), "add-vector", "{}", w());
            ensure!(same_pt(&PointOps::sub(&pb, &pa), &dif), "point-ops-sub", "{}", w());
            let s = Segment::<T, $N>::new(&pa, &pb);
            ensure!(same_pt(&s.midpoint(), &mid), "segment-midpoint", "{}", w());
            ensure!(veq(&s.direction(), &dif), "segment-direction", "{}", w());
            let inv = s.inverse();
            let mut sw = s.clone();
            sw.invert();
            ensure!(inv[0] == pb && inv[1] == pa && sw == inv && s[0] == pa && s[1] == pb && *s.a() == pa && *s.b() == pb, "segment-inverse", "{}", w());
        }};
    }

    pub fn vec2() -> Family {
        let fr = lin();
        family(&format!("{}/vec2", T::NAME), (4 * 25) as u64, move |i, c| {
            let mut d = Dec(i);
            let f = &fr[d.take(4)];
            if skip(f) { return Ok(()); }
            let a: I2 = lat(d.take(25), 5, -2);
            for j in 0..25 {
                let b: I2 = lat(j, 5, -2);
                let w = || format!("a={a:?} b={b:?} scale {}", f.s);
                common!(f, &a, &b, c, 2, w);
                pointy!(f, &a, &b, 2, w);
                let (va, vb) = (Vector::<T, 2>(pt(f, &a)), Vector::<T, 2>(pt(f, &b)));
                let x = a[0] * b[1] - a[1] * b[0];
                ensure!(same(&Cross2::cross(&va, &vb), &f.det(2, x as i128)), "cross2", "{}", w());
            }
            c.sample(|| format!("a={a:?} against every b"));
            Ok(())
        })
    }
    pub fn vec3() -> Family {
        let fr = lin();
        family(&format!("{}/vec3", T::NAME), (4 * 125) as u64, move |i, c| {
            let mut d = Dec(i);
            let f = &fr[d.take(4)];
            if skip(f) { return Ok(()); }
            let a: I3 = lat(d.take(125), 5, -2);
            let va = Vector::<T, 3>(pt(f, &a));
            if a != [0; 3] {
                let p = va.any_perpendicular();
                ensure!(same(&va.dot(&p), &Rational::new()), "perpendicular", "a={a:?}: a·perp = {:?}", va.dot(&p));
                ensure!((0..3).any(|i| !same(&p[i], &Rational::new())), "perpendicular-zero", "a={a:?}: perpendicular vector is zero");
            }
            for j in 0..125 {
                let b: I3 = lat(j, 5, -2);
                let w = || format!("a={a:?} b={b:?} scale {}", f.s);
                common!(f, &a, &b, c, 3, w);
                pointy!(f, &a, &b, 3, w);
                let vb = Vector::<T, 3>(pt(f, &b));
                let x = cross3(&a.map(|v| v as i128), &b.map(|v| v as i128));
                ensure!(veq(&Cross3::cross(&va, &vb), &x.map(|v| f.det(2, v))), "cross3", "{}", w());
                let u = Rational::from((1, 4));
                let want: [Rational; 3] = std::array::from_fn(|i| (rq(f, a[i] as i128) * 3 + rq(f, b[i] as i128)) / 4);
                ensure!(veq(&va.lerp(&vb, &T::of(&u)), &want), "lerp", "lerp 1/4 {}", w());
            }
            c.sample(|| format!("a={a:?} against every b"));
            Ok(())
        })
    }
    pub fn vec4() -> Family {
        let fr = lin();
        family(&format!("{}/vec4", T::NAME), (4 * 81) as u64, move |i, c| {
            let mut d = Dec(i);
            let f = &fr[d.take(4)];
            if skip(f) { return Ok(()); }
            let a: [i64; 4] = lat(d.take(81), 3, -1);
            let va = Vector::<T, 4>(pt(f, &a));
            if a != [0; 4] {
                let p = va.any_perpendicular();
                ensure!(same(&va.dot(&p), &Rational::new()), "perpendicular4", "a={a:?}: a·perp = {:?}", va.dot(&p));
                ensure!((0..4).any(|i| !same(&p[i], &Rational::new())), "perpendicular4-zero", "a={a:?}");
            }
            for j in 0..81 {
                let b: [i64; 4] = lat(j, 3, -1);
                let w = || format!("a={a:?} b={b:?} scale {}", f.s);
                common!(f, &a, &b, c, 4, w);
                let vb = Vector::<T, 4>(pt(f, &b));
                let u = Rational::from((1, 4));
                let want: [Rational; 4] = std::array::from_fn(|i| (rq(f, a[i] as i128) * 3 + rq(f, b[i] as i128)) / 4);
                ensure!(veq(&va.lerp(&vb, &T::of(&u)), &want), "lerp4", "{}", w());
            }
            Ok(())
        })
    }

    fn mk<const R: usize, const C: usize>(f: &Frame, v: &[[i64; C]; R]) -> Matrix<T, R, C> {
        Matrix::new(std::array::from_fn(|i| std::array::from_fn(|j| T::at(f, 0, v[i][j]))))
    }
    fn meq<const R: usize, const C: usize>(m: &Matrix<T, R, C>, g: impl Fn(usize, usize) -> Rational) -> bool {
        (0..R).all(|i| (0..C).all(|j| same(&m[i][j], &g(i, j))))
    }
    fn grid<const R: usize, const C: usize>(i: usize, alpha: &[i64]) -> [[i64; C]; R] {
        let mut i = i;
        std::array::from_fn(|_| std::array::from_fn(|_| { let v = alpha[i % alpha.len()]; i /= alpha.len(); v }))
    }
    fn mul_i<const R: usize, const C: usize, const K: usize>(a: &[[i64; C]; R], b: &[[i64; K]; C]) -> [[i64; K]; R] {
        std::array::from_fn(|i| std::array::from_fn(|k| (0..C).map(|j| a[i][j] * b[j][k]).sum()))
    }
    /// facts about one pair of same-shaped matrices
    fn pair<const R: usize, const C: usize>(f: &Frame, a: &[[i64; C]; R], b: &[[i64; C]; R], c: &mut Ctx) -> Res {
        let w = || format!("a={a:?} b={b:?} scale {}", f.s);
        let (ma, mb) = (mk::<R, C>(f, a), mk::<R, C>(f, b));
        let q = |v: i64| rq(f, v as i128);
        ensure!(meq(&(&ma + &mb), |i, j| q(a[i][j] + b[i][j])) && meq(&(ma.clone() + mb.clone()), |i, j| q(a[i][j] + b[i][j])), "matrix-add", "{}", w());
        ensure!(meq(&(&ma - &mb), |i, j| q(a[i][j] - b[i][j])) && meq(&(ma.clone() - mb.clone()), |i, j| q(a[i][j] - b[i][j])), "matrix-sub", "{}", w());
        ensure!(meq(&(-ma.clone()), |i, j| q(-a[i][j])), "matrix-neg", "{}", w());
        ensure!(meq(&ma.transpose(), |i, j| q(a[j][i])), "transpose", "{}", w());
        ensure!(meq(&ma.scale(&T::of(&Rational::from((3, 2)))), |i, j| q(3 * a[i][j]) / 2), "matrix-scale", "{}", w());
        ensure!(meq(&ma.lerp(&mb, &T::of(&Rational::from((1, 4)))), |i, j| q(3 * a[i][j] + b[i][j]) / 4), "matrix-lerp", "{}", w());
        for r in 0..R {
            ensure!((0..C).all(|j| same(&ma.row(r)[j], &q(a[r][j]))), "row", "row {r} {}", w());
        }
        for k in 0..C {
            ensure!((0..R).all(|i| same(&ma.col(k)[i], &q(a[i][k]))), "col", "col {k} {}", w());
        }
        let cols: [[T; R]; C] = std::array::from_fn(|j| std::array::from_fn(|i| ma[i][j].clone()));
        ensure!(Matrix::from_cols(cols) == ma && Matrix::from_rows(ma.0.clone()) == ma, "from-cols", "{}", w());
        ensure!((ma == mb) == (a == b), "matrix-eq", "{}", w());
        if a == b { ensure!(hash_of(&ma) == hash_of(&mb), "matrix-hash", "{}", w()); }
        // product with the transpose of the other, and matrix times vector
        let bt: [[i64; R]; C] = std::array::from_fn(|i| std::array::from_fn(|j| b[j][i]));
        let p = mul_i(a, &bt);
        let mt = mk::<C, R>(f, &bt);
        ensure!(meq(&(&ma * &mt), |i, j| f.det(2, p[i][j] as i128)) && meq(&(ma.clone() * mt.clone()), |i, j| f.det(2, p[i][j] as i128)), "matrix-mul", "a * transpose(b) {}", w());
        let v = Vector::<T, C>(Point { coords: mb[0].clone() });
        let mv = &ma * &v;
        let mv2 = ma.clone() * v.clone();
        for i in 0..R {
            let s: i64 = (0..C).map(|j| a[i][j] * b[0][j]).sum();
            ensure!(same(&mv[i], &f.det(2, s as i128)) && same(&mv2[i], &f.det(2, s as i128)), "matrix-vector", "a * row0(b) {}", w());
        }
        let o = Matrix::<T, C, C>::outer(&v, &v);
        ensure!(meq(&o, |i, j| f.det(2, (b[0][i] * b[0][j]) as i128)), "outer", "{}", w());
        c.case();
        c.call(18);
        Ok(())
    }
    pub fn mat_pairs() -> Family {
        let fr = lin();
        const A: [i64; 3] = [-1, 0, 2];
        family(&format!("{}/matrix-pairs", T::NAME), (4 * 81) as u64, move |i, c| {
            let mut d = Dec(i);
            let f = &fr[d.take(4)];
            if skip(f) { return Ok(()); }
            let x = d.take(81);
            for y in 0..81 {
                pair(f, &grid::<2, 2>(x, &A), &grid::<2, 2>(y, &A), c)?;
                // rectangular shapes: two alphabet digits per entry keep entries independent
                pair(f, &grid::<2, 3>(x * 9 + y % 9, &A), &grid::<2, 3>(y * 9 + x % 9, &A), c)?;
                pair(f, &grid::<3, 2>(x * 9 + y / 9, &A), &grid::<3, 2>(y * 9 + x / 9, &A), c)?;
                pair(f, &grid::<3, 3>(x * 243 + y * 3, &A), &grid::<3, 3>(y * 243 + x * 3 + 1, &A), c)?;
            }
            Ok(())
        })
    }
    pub fn mat_square() -> Family {
        let fr = lin();
        const A: [i64; 3] = [-1, 0, 2];
        family(&format!("{}/matrix-square", T::NAME), (4 * 729) as u64, move |i, c| {
            let mut d = Dec(i);
            let f = &fr[d.take(4)];
            if skip(f) { return Ok(()); }
            let hi = d.take(729);
            for lo in 0..27 {
                let a = grid::<3, 3>(hi * 27 + lo, &A);
                let w = || format!("{a:?} scale {}", f.s);
                let m = mk::<3, 3>(f, &a);
                let dt = det_q(&a.map(|r| r.to_vec()));
                c.case();
                c.call(2);
                ensure!(same(&m.det(), &f.det(3, dt)), "det3", "det {} = {:?}, truth {dt} steps", w(), m.det());
                let inv = m.inverse();
                if dt == 0 {
                    if T::EXACT || f.dyadic { ensure!(inv.is_none(), "inverse3-singular", "{}", w()); }
                    c.hit("singular");
                } else {
                    let Some(inv) = inv else { return fail("inverse3-missing", w()) };
                    let p = &m * &inv;
                    ensure!(meq(&p, |i, j| Rational::from((i == j) as i64)), "inverse3", "m * inverse(m) is not the identity: {}", w());
                    ensure!(meq(&Matrix::<T, 3, 3>::identity(), |i, j| Rational::from((i == j) as i64)), "identity", "identity");
                    c.hit("regular");
                }
                if hi < 3 {
                    let a = grid::<2, 2>(hi * 27 + lo, &A);
                    let w = || format!("{a:?} scale {}", f.s);
                    let m = mk::<2, 2>(f, &a);
                    let dt = (a[0][0] * a[1][1] - a[0][1] * a[1][0]) as i128;
                    ensure!(same(&m.det(), &f.det(2, dt)), "det2", "{}", w());
                    match m.inverse() {
                        None => ensure!(dt == 0, "inverse2-missing", "{}", w()),
                        Some(inv) => {
                            ensure!(dt != 0 || !(T::EXACT || f.dyadic), "inverse2-singular", "{}", w());
                            if dt != 0 { ensure!(meq(&(&m * &inv), |i, j| Rational::from((i == j) as i64)), "inverse2", "{}", w()); }
                        }
                    }
                }
            }
            Ok(())
        })
    }
    pub fn det45() -> Family {
        family(&format!("{}/det-4-5", T::NAME), 65536 / 64, move |i, c| {
            let fr = lin();
            let f = &fr[0];
            for lo in 0..64usize {
                let x = i as usize * 64 + lo;
                // a 0/1 pattern with distinct weights per row and column
                let g = grid::<4, 4>(x, &[0, 1]);
                let a: [[i64; 4]; 4] = std::array::from_fn(|r| std::array::from_fn(|k| g[r][k] * (1 + r as i64 + 2 * k as i64)));
                c.case();
                c.call(1);
                let want = det_q(&a.map(|r| r.to_vec()));
                ensure!(same(&mk::<4, 4>(f, &a).det(), &Rational::from(want)), "det4", "{a:?}: truth {want}");
                {
                    let h: [[i64; 5]; 5] = std::array::from_fn(|r| std::array::from_fn(|k| if r < 4 && k < 4 { a[r][k] } else { (r as i64 * 2 - k as i64 + (x as i64 >> 6) + (x as i64 & 7)) % 4 }));
                    let want = det_q(&h.map(|r| r.to_vec()));
                    c.case();
                    c.call(1);
                    ensure!(same(&mk::<5, 5>(f, &h).det(), &Rational::from(want)), "det5", "{h:?}: truth {want}");
                }
            }
            Ok(())
        })
    }

    fn skip(f: &Frame) -> bool { !T::EXACT && f.exact_only }
    pub fn planes3() -> Family {
        let fr = frames();
        let k = fr.len();
        family(&format!("{}/planes", T::NAME), (k * 27 * 27) as u64, move |i, c| {
            let mut d = Dec(i);
            let f = &fr[d.take(k)];
            if skip(f) { return Ok(()); }
            let a: I3 = lat(d.take(27), 3, 0);
            let b: I3 = lat(d.take(27), 3, 0);
            for l in 0..27 {
                let e: I3 = lat(l, 3, 0);
                if collinear_i(&a, &b, &e) { continue; }
                let w = || format!("plane {a:?} {b:?} {e:?} frame {}", f.name);
                let (pa, pb, pe) = (pt::<T, 3>(f, &a), pt::<T, 3>(f, &b), pt::<T, 3>(f, &e));
                let pl = Plane::<T, 3>::from_points([&pa, &pb, &pe]);
                let can = pl.canonicalized();
                c.case();
                c.call(5);
                // every lattice point: side of the plane = orientation, zero exactly on it
                for j in 0..27 {
                    let p: I3 = lat(j, 3, 0);
                    let want = f.sign(3, sgn_i(orient_i(&[a, b, e, p])));
                    let v = &pl.normal.dot(&pt::<T, 3>(f, &p).as_vector()) + &pl.d;
                    let ok = if T::EXACT { sgn(&v) == Some(want) } else if want == 0 { fl(&v).abs() < 1e-3 * f.s.to_f64().abs() } else { (fl(&v) > 0.0) == (want > 0) };
                    ensure!(ok, "plane-side", "{}: point {p:?} evaluates to {v:?}, true side {want}", w());
                    let cv = &can.normal.dot(&pt::<T, 3>(f, &p).as_vector()) + &can.d;
                    if T::EXACT { ensure!((sgn(&cv) == Some(0)) == (want == 0), "canonical-side", "{}: point {p:?}", w()); }
                }
                if T::EXACT || f.dyadic {
                    // canonical form does not depend on which points or which orientation
                    let c2 = Plane::<T, 3>::from_points([&pb, &pa, &pe]).canonicalized();
                    let c3 = Plane::<T, 3>::from_points([&pe, &pa, &pb]).canonicalized();
                    ensure!(can == c2 && can == c3, "canonical-unique", "{}: canonical planes differ: {can:?} / {c2:?} / {c3:?}", w());
                    ensure!(hash_of(&can) == hash_of(&c2) && hash_of(&can) == hash_of(&c3), "canonical-hash", "{}: equal planes hash differently", w());
                    let lead = can.normal.coords().iter().find(|x| !x.is_zero()).cloned();
                    ensure!(lead.map(|x| same(&x, &Rational::from(1))) == Some(true), "canonical-lead", "{}: leading coefficient is not one", w());
                }
                let o = pl.origin();
                let ov = &pl.normal.dot(&o.as_vector()) + &pl.d;
                let small = |v: &T, scale: f64| if T::EXACT { sgn(v) == Some(0) } else { fl(v).abs() <= 1e-9 * scale };
                ensure!(small(&ov, fl(&pl.normal.norm2()).max(fl(&pl.d).abs())), "plane-origin", "{}: origin not on the plane: {ov:?}", w());
                let (u, v) = pl.basis();
                let s = fl(&pl.normal.norm2());
                ensure!(small(&u.dot(&pl.normal), s) && small(&v.dot(&pl.normal), s * s), "plane-basis", "{}: basis leaves the plane", w());
                let x = u.cross(&v);
                ensure!((0..3).any(|i| fl(&x[i]).abs() > 1e-9), "plane-basis-rank", "{}: basis vectors are parallel", w());
            }
            Ok(())
        })
    }
    /// two planes have equal canonical forms exactly when they are the same plane
    pub fn plane_pairs() -> Family {
        family(&format!("{}/plane-identity", T::NAME), 8 * 8 * 8, move |i, c| {
            let fr = frames();
            let f = &fr[0];
            let mut d = Dec(i);
            let t = [d.take(8), d.take(8), d.take(8)].map(|j| lat::<3>(j, 2, 0));
            if collinear_i(&t[0], &t[1], &t[2]) { return Ok(()); }
            let p = t.map(|v| pt::<T, 3>(f, &v));
            let ca = Plane::<T, 3>::from_points([&p[0], &p[1], &p[2]]).canonicalized();
            for j in 0..512u64 {
                let mut e = Dec(j);
                let s = [e.take(8), e.take(8), e.take(8)].map(|j| lat::<3>(j, 2, 0));
                if collinear_i(&s[0], &s[1], &s[2]) { continue; }
                let r = s.map(|v| pt::<T, 3>(f, &v));
                let cb = Plane::<T, 3>::from_points([&r[0], &r[1], &r[2]]).canonicalized();
                let eq = s.iter().all(|q| orient_i(&[t[0], t[1], t[2], *q]) == 0);
                c.case();
                c.call(1);
                ensure!((ca == cb) == eq, "plane-identity", "{t:?} vs {s:?}: canonical equal = {}, same plane = {eq}", ca == cb);
                if eq { ensure!(hash_of(&ca) == hash_of(&cb), "plane-identity-hash", "{t:?} vs {s:?}"); }
                c.hit(if eq { "same" } else { "different" });
            }
            Ok(())
        })
    }
    pub fn lines2() -> Family {
        let fr = frames();
        let k = fr.len();
        family(&format!("{}/lines", T::NAME), (k * 25 * 25) as u64, move |i, c| {
            let mut d = Dec(i);
            let f = &fr[d.take(k)];
            if skip(f) { return Ok(()); }
            let a: I2 = lat(d.take(25), 5, 0);
            let b: I2 = lat(d.take(25), 5, 0);
            if a == b { return Ok(()); }
            let w = || format!("line {a:?} {b:?} frame {}", f.name);
            let (pa, pb) = (pt::<T, 2>(f, &a), pt::<T, 2>(f, &b));
            let pl = Plane::<T, 2>::from_points([&pa, &pb]);
            c.case();
            c.call(5);
            for j in 0..25 {
                let p: I2 = lat(j, 5, 0);
                let want = f.sign(2, sgn_i(orient_i(&[a, b, p])));
                let v = &pl.normal.dot(&pt::<T, 2>(f, &p).as_vector()) + &pl.d;
                let ok = if T::EXACT { sgn(&v) == Some(want) } else if want == 0 { fl(&v).abs() < 1e-6 } else { (fl(&v) > 0.0) == (want > 0) };
                ensure!(ok, "line-side", "{}: point {p:?} evaluates to {v:?}, true side {want}", w());
            }
            if T::EXACT || f.dyadic {
                let ca = pl.canonicalized();
                let cb = Plane::<T, 2>::from_points([&pb, &pa]).canonicalized();
                ensure!(ca == cb && hash_of(&ca) == hash_of(&cb), "line-canonical", "{}: {ca:?} vs {cb:?}", w());
            }
            let o = pl.origin();
            let ov = &pl.normal.dot(&o.as_vector()) + &pl.d;
            ensure!(if T::EXACT { sgn(&ov) == Some(0) } else { fl(&ov).abs() <= 1e-9 * fl(&pl.d).abs().max(1.0) }, "line-origin", "{}: {ov:?}", w());
            let (u, v) = pl.basis();
            ensure!(same(&u.dot(&pl.normal), &Rational::new()), "line-tangent", "{}", w());
            ensure!(u.coords().iter().any(|x| !x.is_zero()) && v.coords().iter().any(|x| !x.is_zero()), "line-basis-zero", "{}", w());
            Ok(())
        })
    }
    pub fn edges() -> Family {
        let fr = frames();
        let k = fr.len();
        family(&format!("{}/edges", T::NAME), (k * 27 * 27) as u64, move |i, c| {
            let mut d = Dec(i);
            let f = &fr[d.take(k)];
            if skip(f) { return Ok(()); }
            let (x, y) = (d.take(27), d.take(27));
            if x == y { return Ok(()); }
            let (a, b): (I3, I3) = (lat(x, 3, 0), lat(y, 3, 0));
            let (pa, pb) = (pt::<T, 3>(f, &a), pt::<T, 3>(f, &b));
            let (e, r) = (CanonicalEdge::new(&pa, &pb), CanonicalEdge::new(&pb, &pa));
            // a mirrored frame turns the order round
            let (lo, hi) = if (a < b) == (f.s > 0) { (a, b) } else { (b, a) };
            c.case();
            c.call(2);
            ensure!(e == r && e.a == pt::<T, 3>(f, &lo) && e.b == pt::<T, 3>(f, &hi), "edge-canonical", "{a:?} {b:?} frame {}: {e:?} and {r:?}", f.name);
            let along = |p: &[i64], lo: &[i64], hi: &[i64]| -> Rational {
                let n: i64 = (0..p.len()).map(|j| (p[j] - lo[j]) * (hi[j] - lo[j])).sum();
                let m: i64 = (0..p.len()).map(|j| (hi[j] - lo[j]) * (hi[j] - lo[j])).sum();
                Rational::from((n, m))
            };
            for j in 0..27 {
                let p: I3 = lat(j, 3, 0);
                c.call(1);
                let t = e.parameter_t(&pt::<T, 3>(f, &p));
                ensure!(same(&t, &along(&p, &lo, &hi)), "edge-parameter", "{p:?} along {lo:?} {hi:?} frame {}: {t:?}", f.name);
                if !collinear_i(&a, &b, &p) {
                    let (u, v) = face_uv_frame_metric(&pa, &pb, &pt::<T, 3>(f, &p));
                    let det = |v: &Vector<T, 3>, w: &[i64; 3]| v.dot(&(&pt::<T, 3>(f, w) - &pa).as_vector());
                    c.call(1);
                    let n: I3 = { let (s, t): (I3, I3) = (std::array::from_fn(|q| b[q] - a[q]), std::array::from_fn(|q| p[q] - a[q]));
                        [s[1] * t[2] - s[2] * t[1], s[2] * t[0] - s[0] * t[2], s[0] * t[1] - s[1] * t[0]] };
                    let z = Rational::new();
                    let cross: I3 = std::array::from_fn(|q| n[q] + a[q]);
                    ensure!(same(&det(&u, &cross), &z) && same(&det(&v, &cross), &z) && same(&u.dot(&v), &z), "frame-in-plane", "{a:?} {b:?} {p:?} frame {}: {u:?} {v:?}", f.name);
                    ensure!(u == (&pb - &pa).as_vector() && det(&v, &p).is_positive(), "frame-side", "{a:?} {b:?} {p:?} frame {}: {u:?} {v:?}", f.name);
                    c.hit("frame of a face");
                }
            }
            c.hit("edge in space");
            if a[2] == 0 && b[2] == 0 {
                let two = |p: &I3| -> I2 { [p[0], p[1]] };
                let e = CanonicalEdge::new(&pt::<T, 2>(f, &two(&a)), &pt::<T, 2>(f, &two(&b)));
                for j in 0..9 {
                    let p: I3 = lat(j, 3, 0);
                    c.call(1);
                    let t = e.parameter_t(&pt::<T, 2>(f, &two(&p)));
                    ensure!(same(&t, &along(&p[..2], &lo[..2], &hi[..2])), "edge-parameter", "{p:?} along {lo:?} {hi:?} in the plane, frame {}: {t:?}", f.name);
                }
                c.hit("edge in the plane");
            }
            Ok(())
        })
    }
    pub fn all() -> Vec<Family> {
        vec![edges(), vec2(), vec3(), vec4(), mat_pairs(), mat_square(), det45(), planes3(), plane_pairs(), lines2()]
    }
}

fn main() {
    let _ = (CgarF64(0.0), CgarRational::default());
    let mut v = sf::all();
    v.extend(sr::all());
    v.extend(sl::all());
    run_check(
        "C08",
        Opts {
            rule: "every vector pair, matrix, matrix pair and plane over small integer alphabets x scale x scalar type; compared with integer arithmetic and permutation determinants".into(),
            assumptions: vec!["doubles are compared to rounding error".into()],
            ..Default::default()
        },
        v,
    )
}
