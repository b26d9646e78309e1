//! C20: Delaunay triangulations are triangulations of the hull with empty circles.
use cgar::geometry::Point2;
use cgar::operations::triangulation::delaunay::Delaunay;
use mc::engine::*;
use mc::ensure;
use mc::geo::*;
use mc::mesh::Tri;
use mc::per_scalar;
use mc::plane::*;
use rug::Rational;

per_scalar! {
    pub mod d {
        use super::*;
        fn frs(which: &[usize]) -> Vec<Frame> {
            // two more: one below the origin, one beyond the doubles
            let all = || {
                let mut v = frames();
                let q = |n: i64| Rational::from(n);
                v.push(Frame { name: "below", s: Rational::from((1, 2)), off: [q(-100), q(-300), q(0), q(0)], dyadic: true, exact_only: false });
                v.push(beyond());
                v
            };
            which.iter().map(|i| all().remove(*i)).filter(|f| T::EXACT || (f.dyadic && !f.exact_only)).collect()
        }
        fn one(fr: &Frame, pts: &[I2], c: &mut Ctx) -> Res {
            c.case();
            let p: Vec<Point2<T>> = pts.iter().map(|q| pt::<T, 2>(fr, q)).collect();
            let d = Delaunay::build(&p);
            c.call(pts.len() as u64);
            let tris: Vec<Tri> = d.triangles.iter().map(|t| [t.0, t.1, t.2]).collect();
            let w = || format!("{} {} points {pts:?}", T::NAME, fr.name);
            ensure!(d.points.len() == pts.len() && d.points.iter().zip(&p).all(|(a, b)| a == b), "points", "{}: the points have changed", w());
            // the frames scale both axes alike, which never turns a triangle over
            if let Err((sig, e)) = triangulates(pts, &tris, 1).and_then(|_| empty_circles(pts, &tris, 1)) {
                return fail(sig, format!("{}: {e}; triangles {tris:?}", w()));
            }
            c.hit(match tris.len() { 0 => "no triangle", 1..=4 => "few triangles", _ => "many triangles" });
            Ok(())
        }
        /// all point sets of a lattice, in lattice order
        pub fn sets(n: i64, m: i64, which: &[usize]) -> Family {
            let frs = frs(which);
            let k = (n * m) as usize;
            family(format!("{}-sets-{n}x{m}", T::NAME), ((frs.len() << k) as u64) / 64, move |i, c| {
                // 64 sets per case
                for j in 0..64 {
                    let mut d = Dec(i * 64 + j);
                    let fr = &frs[d.take(frs.len())];
                    let set = d.take(1 << k);
                    let pts: Vec<I2> = (0..k).filter(|b| set >> b & 1 == 1).map(|b| [b as i64 % n, b as i64 / n]).collect();
                    one(fr, &pts, c)?;
                }
                Ok(())
            })
        }
        /// all point sets of a stretched or sheared lattice
        pub fn thin(n: i64, m: i64) -> Family {
            let fr = frames().remove(if T::EXACT { 1 } else { 0 });
            let k = (n * m) as usize;
            let maps: [[i64; 4]; 4] = [[1000, 0, 0, 1], [1, 0, 0, 300], [200, 1, 1, 0], [100, 99, 99, 98]];
            family(format!("{}-thin-{n}x{m}", T::NAME), ((maps.len() << k) as u64) / 64, move |i, c| {
                for j in 0..64 {
                    let mut d = Dec(i * 64 + j);
                    let mp = maps[d.take(maps.len())];
                    let set = d.take(1 << k);
                    let pts: Vec<I2> = (0..k).filter(|b| set >> b & 1 == 1).map(|b| [b as i64 % n, b as i64 / n]).map(|p| [mp[0] * p[0] + mp[1] * p[1], mp[2] * p[0] + mp[3] * p[1]]).collect();
                    one(&fr, &pts, c)?;
                }
                Ok(())
            })
        }
        /// all point sets of lattices so sheared that doubles lose every digit of an area
        pub fn needles(n: i64, m: i64) -> Family {
            let fr = frames().remove(1);
            let k = (n * m) as usize;
            let maps: [[i64; 4]; 8] = [[610, 377, 987, 610], [4181, 2584, 6765, 4181], [10946, 6765, 17711, 10946], [28657, 17711, 46368, 28657], [75025, 46368, 121393, 75025], [196418, 121393, 317811, 196418], [1346269, 832040, 2178309, 1346269], [39088169, 24157817, 63245986, 39088169]];
            family(format!("{}-needles-{n}x{m}", T::NAME), ((maps.len() << k) as u64) / 64, move |i, c| {
                for j in 0..64 {
                    let mut d = Dec(i * 64 + j);
                    let mp = maps[d.take(maps.len())];
                    let set = d.take(1 << k);
                    let pts: Vec<I2> = (0..k).filter(|b| set >> b & 1 == 1).map(|b| [b as i64 % n, b as i64 / n]).map(|p| [mp[0] * p[0] + mp[1] * p[1], mp[2] * p[0] + mp[3] * p[1]]).collect();
                    one(&fr, &pts, c)?;
                }
                Ok(())
            })
        }
        /// lattices of every size, in three orders; convex chains of every length
        pub fn sizes(max: i64, which: &[usize]) -> Family {
            let frs = frs(which);
            let m = max as usize;
            family(format!("{}-sizes-{max}", T::NAME), (frs.len() * m * m * 4) as u64, move |i, c| {
                let mut d = Dec(i);
                let fr = &frs[d.take(frs.len())];
                let order = d.take(4);
                let (a, b) = (d.take(m) as i64 + 1, d.take(m) as i64 + 1);
                let n = if order == 3 { 3 * a } else { a * b } as usize;
                let pts: Vec<I2> = (0..n as i64).map(|k| if order == 3 { [k, k * k] } else { [k % a, k / a] }).collect();
                let pts: Vec<I2> = match order {
                    0 => pts,
                    1 => pts.into_iter().rev().collect(),
                    // from both ends towards the middle
                    2 => (0..n).map(|j| pts[if j % 2 == 0 { j / 2 } else { n - 1 - j / 2 }]).collect(),
                    // one convex chain per length, not per pair
                    _ if b == 1 => pts,
                    _ => return Ok(()),
                };
                one(fr, &pts, c)
            })
        }
        /// every set of the points of one circle, with and without its centre, first or last
        pub fn circles(sq: i64, most: usize, which: &[usize]) -> Family {
            let frs = frs(which);
            let all: Vec<I2> = (-sq..=sq).flat_map(|x| (-sq..=sq).map(move |y| [x, y])).filter(|p| p[0] * p[0] + p[1] * p[1] == sq).take(most).collect();
            let k = all.len();
            family(format!("{}-circle-{sq}-{k}", T::NAME), (frs.len() << k) as u64, move |i, c| {
                let mut d = Dec(i);
                let fr = &frs[d.take(frs.len())];
                let set = d.take(1 << k);
                let on: Vec<I2> = (0..k).filter(|b| set >> b & 1 == 1).map(|b| all[b]).collect();
                one(fr, &on, c)?;
                one(fr, &[[0, 0]].into_iter().chain(on.iter().copied()).collect::<Vec<_>>(), c)?;
                one(fr, &on.iter().rev().copied().chain([[0, 0]]).collect::<Vec<_>>(), c)
            })
        }
        /// short sequences in which one point comes up to `most` times in a row, or a long straight run of points is put in
        pub fn runs(n: i64, m: i64, most: usize, which: &[usize]) -> Family {
            let frs = frs(which);
            let k = (n * m) as usize;
            family(format!("{}-runs-{n}x{m}-{most}", T::NAME), (frs.len() * k.pow(4) * 5) as u64, move |i, c| {
                let mut d = Dec(i);
                let fr = &frs[d.take(frs.len())];
                let at = d.take(5);
                let base: Vec<I2> = (0..4).map(|_| d.take(k)).map(|b| [b as i64 % n, b as i64 / n]).collect();
                for many in 1..=most {
                    for put in 0..6 {
                        let mut pts = base.clone();
                        let run: Vec<I2> = (0..many as i64).map(|j| match put { 4 => [j, 0], 5 => [many as i64 - j, many as i64 - j], e => base[e] }).collect();
                        pts.splice(at..at, run);
                        one(fr, &pts, c)?;
                    }
                }
                Ok(())
            })
        }
        /// all sequences of lattice points, repeats included
        pub fn orders(n: i64, m: i64, len: usize, which: &[usize]) -> Family {
            let frs = frs(which);
            let k = (n * m) as usize;
            family(format!("{}-orders-{n}x{m}-{len}", T::NAME), (frs.len() * k.pow(len as u32 - 2)) as u64, move |i, c| {
                let mut d = Dec(i);
                let fr = &frs[d.take(frs.len())];
                let head: Vec<usize> = (2..len).map(|_| d.take(k)).collect();
                for j in 0..k * k {
                    let pts: Vec<I2> = head.iter().copied().chain([j % k, j / k]).map(|b| [b as i64 % n, b as i64 / n]).collect();
                    one(fr, &pts, c)?;
                }
                Ok(())
            })
        }
    }
}

fn main() {
    let th = thorough() as usize;
    let all = [0, 1, 2, 3, 4, 5, 7];
    let mut f = vec![
        sf::d::sets(4, 4, &all),
        sf::d::orders(3, 3, 6, &[0, 2, 3, 6]),
        sf::d::orders(3, 2, 6, &all),
        sr::d::sets(4, 3, &all),
        sr::d::orders(3, 3, 4 + th, &all),
        sl::d::sets(4, 3, &all),
        sl::d::orders(3, 3, 4 + th, &[0, 1, 4]),
        sf::d::orders(4, 4, 4, &[0]),
        sf::d::sets(6, 2, &all),
        sf::d::sets(5, 4, &[0]),
        sr::d::sets(4, 4, &[1]),
        sl::d::sets(4, 4, &[1]),
        sf::d::thin(4, 4),
        sr::d::thin(4, 3),
        sl::d::thin(4, 3),
        sr::d::needles(4, 3),
        sl::d::needles(4, 3),
    ];
    f.extend([
        sf::d::sizes(16 + 4 * th as i64, &[0, 2, 3]),
        sr::d::sizes(10 + 2 * th as i64, &[1, 5]),
        sl::d::sizes(8, &[1, 5]),
        sf::d::runs(3, 2, 18 + 8 * th, &[0]),
        sr::d::runs(2, 2, 14, &[1]),
        sl::d::runs(2, 2, 14, &[1]),
        sf::d::circles(25, 12, &[0, 3]),
        sf::d::circles(65, 16, &[0]),
        sr::d::circles(25, 10, &[1, 5]),
        sl::d::circles(25, 10, &[1]),
    ]);
    if th == 1 {
        f.push(sf::d::sets(5, 4, &[2, 6]));
        f.push(sf::d::orders(3, 3, 7, &[0]));
        f.push(sr::d::sets(4, 4, &all));
        f.push(sl::d::sets(4, 4, &all));
    }
    run_check(
        "C20",
        Opts {
            rule: "every set of points of a 4 x 4 lattice and every sequence of up to six points of smaller lattices, repeats included, in five coordinate frames".into(),
            assumptions: vec!["the orientation test calls a doubled area below 1e-10 times the sum of the coordinates zero, and double in-circle tests round beyond 2^53: inputs stay clear of both".into()],
            ..Default::default()
        },
        f,
    )
}
