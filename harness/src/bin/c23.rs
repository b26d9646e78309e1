//! C23: a mesh written to a file and read back is the same mesh, in every format and every chain of formats.
use cgar::geometry::point::Point;
use cgar::geometry::spatial_element::SpatialElement;
use cgar::io::{obj, off, stl};
use cgar::mesh::basic_types::Mesh;
use mc::edits;
use mc::engine::*;
use mc::ensure;
use mc::geo::*;
use mc::mesh::*;
use mc::per_scalar;
use rug::Rational;

const FORMATS: [&str; 3] = ["obj", "off", "stl"];

/// what has to come back: positions and triangles between them
#[derive(Clone)]
struct Want<T> {
    v: Vec<[T; 3]>,
    t: Vec<Tri>,
}

fn file() -> std::path::PathBuf {
    thread_local! {
        static F: std::path::PathBuf = {
            static N: std::sync::atomic::AtomicUsize = std::sync::atomic::AtomicUsize::new(0);
            scratch_dir().join(format!("mesh-{}", N.fetch_add(1, std::sync::atomic::Ordering::Relaxed)))
        };
    }
    F.with(|f| f.clone())
}

/// the double that has to be written: the value itself, or a double next to it
fn close(x: &Rational, y: &Rational) -> bool {
    if x == y {
        return true;
    }
    let lo = x.to_f64();
    if Rational::from_f64(lo).is_some_and(|l| l == *x) {
        return false; // a double has to come back as it is
    }
    let d = Rational::from(x - y).abs();
    let ulp = Rational::from_f64((lo.abs().next_up() - lo.abs()).max(f64::MIN_POSITIVE * f64::EPSILON)).unwrap();
    d <= ulp
}

/// the normals in the file, where doubles can tell: towards the side from which the corners run to the left
fn normals(text: &str) -> Result<usize, String> {
    let num = |l: &str, skip: usize| -> Option<[f64; 3]> {
        let x: Vec<f64> = l.split_whitespace().skip(skip).filter_map(|x| x.parse().ok()).collect();
        x.try_into().ok()
    };
    let (mut n, mut vs, mut seen) = (None, vec![], 0);
    for l in text.lines().map(str::trim) {
        match l.split_whitespace().next() {
            Some("facet") => {
                n = num(l, 2);
                vs.clear();
            }
            Some("vertex") => vs.extend(num(l, 1)),
            Some("endfacet") if vs.len() == 3 => {
                let d = |i: usize, k: usize| Rational::from_f64(vs[i][k]).unwrap() - Rational::from_f64(vs[0][k]).unwrap();
                let cross: [Rational; 3] = std::array::from_fn(|k| d(1, (k + 1) % 3) * d(2, (k + 2) % 3) - d(1, (k + 2) % 3) * d(2, (k + 1) % 3));
                let sq = |x: &[Rational; 3]| x.iter().map(|x| Rational::from(x * x)).fold(Rational::new(), |a, b| a + b);
                let (e, f): ([Rational; 3], [Rational; 3]) = (std::array::from_fn(|k| d(1, k)), std::array::from_fn(|k| d(2, k)));
                let c2 = sq(&cross);
                let l2 = c2.to_f64();
                // flat or extreme triangles: nothing to tell with doubles
                if !(1e-200..1e200).contains(&l2) || Rational::from(&c2 * 1000) < sq(&e) * sq(&f) {
                    continue;
                }
                let Some(m) = n else { return Err("a facet without a normal".into()) };
                if !m.iter().all(|x| x.is_finite()) {
                    return Err(format!("the normal {m:?} of {vs:?} is not finite"));
                }
                let m: [Rational; 3] = m.map(|x| Rational::from_f64(x).unwrap());
                let dot = (0..3).fold(Rational::new(), |a, k| a + Rational::from(&m[k] * &cross[k]));
                // within a thousandth of parallel
                if dot <= 0 || Rational::from(&dot * &dot) * 1000000 < sq(&m) * &c2 * 999998 {
                    return Err(format!("the normal {:?} of {vs:?} points elsewhere", n.unwrap()));
                }
                seen += 1;
            }
            _ => {}
        }
    }
    Ok(seen)
}

per_scalar! {
    use super::*;
    type M = Mesh<T, 3>;
    fn held(m: &M) -> Want<T> {
        Want {
            v: m.vertices.iter().map(|v| std::array::from_fn(|i| v.position[i].clone())).collect(),
            t: live_faces(m).into_iter().map(|f| face_tri(m, f)).collect(),
        }
    }
    /// write, read and compare
    pub fn trip(m: &M, format: usize, c: &mut Ctx, w: &dyn Fn() -> String) -> Result<M, Fail> {
        let p = file();
        let want = held(m);
        c.case();
        c.call(2);
        let r = guarded(|| match format {
            0 => { obj::write_obj(m, &p)?; obj::read_obj::<T, _>(&p) }
            1 => { off::write_off(m, &p)?; off::read_off::<T, _>(&p) }
            _ => { stl::write_stl(m, &p)?; stl::read_stl::<T, _>(&p) }
        });
        let w = || format!("{} {} {}", T::NAME, FORMATS[format], w());
        let k: M = match r {
            Ok(Ok(k)) => k,
            Ok(Err(e)) => return fail("refused", format!("{}: {e}", w())),
            Err(e) => return fail("panic", format!("{}: {e}", w())),
        };
        if format == 2 {
            match normals(&std::fs::read_to_string(&p).unwrap_or_default()) {
                Ok(0) => {}
                Ok(_) => c.hit("normals"),
                Err(e) => return fail("normal", format!("{}: {e}", w())),
            }
        }
        let got = held(&k);
        ensure!(k.vertices.iter().all(|v| !v.removed) && k.faces.iter().all(|f| !f.removed), "removed", "{}: something removed was read", w());
        let same = |a: &[T; 3], b: &[T; 3]| (0..3).all(|i| match (a[i].val(), b[i].val()) { (Some(x), Some(y)) => close(&x, &y), _ => false });
        // positions keep their numbers, except in a format that lists the corners of each triangle
        let want = if format < 2 {
            want
        } else {
            Want { v: want.t.iter().flat_map(|t| t.map(|v| want.v[v].clone())).collect(), t: (0..want.t.len()).map(|i| [3 * i, 3 * i + 1, 3 * i + 2]).collect() }
        };
        ensure!(got.t.len() == want.t.len(), "triangles", "{}: {} triangles came back of {}", w(), got.t.len(), want.t.len());
        for (i, (a, b)) in want.t.iter().zip(&got.t).enumerate() {
            if format < 2 {
                ensure!(canon(*a) == canon(*b), "corners", "{}: triangle {i} was {a:?} and is {b:?}", w());
            } else {
                ensure!((0..3).any(|r| (0..3).all(|k| same(&want.v[a[k]], &got.v[b[(k + r) % 3]]))), "corners", "{}: triangle {i} lies elsewhere", w());
            }
        }
        if format < 2 {
            ensure!(got.v.len() == want.v.len(), "vertices", "{}: {} vertices came back of {}", w(), got.v.len(), want.v.len());
            for (i, (a, b)) in want.v.iter().zip(&got.v).enumerate() {
                ensure!(same(a, b), "position", "{}: vertex {i} was {a:?} and is {b:?}", w());
            }
        }
        if let Err(e) = invariants(&k) {
            return fail("mesh", format!("{}: {e}", w()));
        }
        c.hit(FORMATS[format]);
        Ok(k)
    }
    /// every chain of formats
    fn chain(m: &M, len: usize, c: &mut Ctx, w: &dyn Fn() -> String) -> Res {
        if len == 0 {
            return Ok(());
        }
        for f in 0..3 {
            let k = trip(m, f, c, w)?;
            chain(&k, len - 1, c, &|| format!("{} after {}", w(), FORMATS[f]))?;
        }
        Ok(())
    }
    pub fn soups(n: usize, max: usize, len: usize, which: &[usize]) -> Family {
        let all = all_soups(n, max);
        let frs: Vec<Frame> = which.iter().map(|i| frames().remove(*i)).collect();
        family(format!("{}-meshes-{n}-{max}-chains-{len}", T::NAME), (all.len() * frs.len()) as u64, move |i, c| {
            let mut d = Dec(i);
            let fr = &frs[d.take(frs.len())];
            let ts = &all[d.take(all.len())];
            let mut m = M::new();
            for v in 0..n as i64 {
                m.add_vertex(pt::<T, 3>(fr, &[v, v * v - 2, 3 - v * v * v]));
            }
            for t in ts {
                m.add_triangle(t[0], t[1], t[2]);
            }
            c.sample(|| format!("{} {ts:?}", fr.name));
            chain(&m, len, c, &|| format!("{} {ts:?}", fr.name))
        })
    }
    /// surfaces of every size, and one with a great many triangles
    pub fn sizes(max: usize, many: usize) -> Family {
        let all = sized(max);
        family(format!("{}-sizes-{max}", T::NAME), (all.len() * 3 + 3) as u64, move |i, c| {
            let mut d = Dec(i);
            let format = d.take(3);
            let k = d.take(all.len() + 1);
            let (name, n, ts) = match all.get(k) {
                Some(x) => x.clone(),
                None => (format!("{many} triangles apart"), 3 * many, (0..many).map(|t| [3 * t + 2, 3 * t, 3 * t + 1]).collect()),
            };
            let fr = &frames()[if T::EXACT { 1 } else { 0 }];
            let mut m = M::new();
            for v in 0..n as i64 {
                m.add_vertex(pt::<T, 3>(fr, &[v, v % 7, 3 - v * v]));
            }
            for t in &ts {
                m.add_triangle(t[0], t[1], t[2]);
            }
            ensure!(soup(&m).len() == ts.len(), "built", "{name}: {} triangles of {}", soup(&m).len(), ts.len());
            c.sample(|| name.clone());
            trip(&m, format, c, &|| name.clone()).map(|_| ())
        })
    }
    /// every triangle with one coordinate from the list of doubles
    pub fn numbers(vals: Vec<f64>, all: bool) -> Family {
        family(format!("{}-numbers-{}", T::NAME, vals.len()), (vals.len() * if all { 9 } else { 3 }) as u64, move |i, c| {
            let mut d = Dec(i);
            let axis = d.take(3);
            let corner = if all { d.take(3) } else { axis };
            let x = vals[d.take(vals.len())];
            let mut m = M::new();
            for v in 0..3 {
                let mut p = [[0.0, 0.0, 0.0], [1.0, 0.0, 0.5], [0.0, 1.0, -0.5]][v];
                if v == corner {
                    p[axis] = x;
                }
                m.add_vertex(Point::<T, 3>::from_vals(p.map(|x| T::of(&Rational::from_f64(x).unwrap()))));
            }
            m.add_triangle(0, 1, 2);
            for f in 0..3 {
                trip(&m, f, c, &|| format!("coordinate {axis} of corner {corner} is {x:e}"))?;
            }
            Ok(())
        })
    }
    /// fractions no double can hold
    pub fn fractions(n: i64) -> Family {
        family(format!("{}-fractions-{n}", T::NAME), (n * n) as u64, move |i, c| {
            let mut d = Dec(i);
            let (p, q) = (d.take(n as usize) as i64 - n / 2, d.take(n as usize) as i64 + 1);
            let x = Rational::from((p, q));
            let big = Rational::from(&x * 1_000_000_007);
            let mut m = M::new();
            for v in [[&x, &x, &big], [&big, &x, &x], [&x, &big, &x]] {
                m.add_vertex(Point::<T, 3>::from_vals(v.map(|x| T::of(x))));
            }
            m.add_triangle(0, 1, 2);
            chain(&m, 2, c, &|| format!("with {p}/{q}"))
        })
    }
}

fn walk(m: &edits::M3, md: &edits::Model, trace: &mut Vec<edits::Op>, left: usize, c: &mut Ctx, name: &str) -> Res {
    c.tick();
    for f in 0..3 {
        sf::trip(m, f, c, &|| format!("{name}: {trace:?}"))?;
    }
    if left == 0 {
        return Ok(());
    }
    for op in md.ops() {
        trace.push(op);
        let (mut k, mut kd) = (m.clone(), md.clone());
        c.call(1);
        if edits::step(&mut k, &mut kd, op, &|| format!("{name}: {trace:?}"))? {
            walk(&k, &kd, trace, left - 1, c, name)?;
        }
        trace.pop();
    }
    Ok(())
}
/// after all histories of edits
fn edited(depth: usize) -> Vec<Family> {
    surfaces()
        .into_iter()
        .chain([("triangle", 3, vec![[0, 1, 2]]), ("square with a loose vertex", 5, vec![[0, 1, 2], [0, 2, 3]])])
        .map(|(name, n, ts)| {
            let (m, md) = edits::start(n, &ts);
            let ops = md.ops();
            let depth = if ts.len() <= 2 { depth + 1 } else { depth };
            family(name.replace(' ', "-"), ops.len() as u64, move |i, c| {
                let op = ops[i as usize];
                let (mut k, mut kd) = (m.clone(), md.clone());
                c.call(1);
                c.sample(|| format!("{name}: all histories of {depth} edits that begin with {op:?}"));
                if edits::step(&mut k, &mut kd, op, &|| format!("{name}: {op:?}"))? {
                    walk(&k, &kd, &mut vec![op], depth - 1, c, name)?;
                }
                Ok(())
            })
        })
        .collect()
}

/// doubles of every size, and those next to them
fn doubles() -> Vec<f64> {
    let mut out = vec![];
    for e in -1074..=1023 {
        let b = 2f64.powi(e.max(-1022)) * if e < -1022 { 2f64.powi(e + 1022) } else { 1.0 };
        for x in [b, b.next_up(), b.next_down(), b * 1.1] {
            out.extend([x, -x]);
        }
    }
    for e in -320..=308 {
        let b: f64 = format!("1e{e}").parse().unwrap();
        for x in [b, b.next_up(), b.next_down(), b * 9.0] {
            out.extend([x, -x]);
        }
    }
    out.extend([0.0, -0.0, f64::MAX, f64::MIN, f64::MIN_POSITIVE]);
    out.retain(|x| x.is_finite());
    out
}
/// sizes a user meets
fn plain() -> Vec<f64> {
    doubles().into_iter().filter(|x| *x == 0.0 || (1e-30..1e30).contains(&x.abs())).collect()
}

fn main() {
    let th = thorough() as usize;
    let mut f = vec![];
    f.push(sf::soups(4, 20, 3 + th, &[0, 1, 2]));
    f.push(sf::soups(5, 20, 2 + th, &[0, 1]));
    f.push(sr::soups(4, 20, 2 + th, &[0, 1, 2]));
    f.push(sl::soups(4, 20, 2 + th, &[0, 1, 2]));
    f.push(sf::soups(6, 3 + th, 1, &[1]));
    f.push(sf::sizes(90 + 60 * th, 22_000));
    f.push(sr::sizes(20, 300));
    f.push(sl::sizes(20, 300));
    f.push(sf::numbers(doubles(), false));
    f.push(sf::numbers(plain(), true));
    f.push(sr::numbers(plain(), th == 1));
    f.push(sl::numbers(plain(), th == 1));
    f.push(sr::fractions(40 + 40 * th as i64));
    f.push(sl::fractions(40 + 40 * th as i64));
    f.extend(edited(2));
    run_check(
        "C23",
        Opts {
            rule: "every small mesh, every edit history to the depth and every size of number, written in each format and read back, in every chain of formats".into(),
            assumptions: vec!["coordinates lie in the range of doubles; numbers that are no doubles come back as a double next to them".into()],
            ..Default::default()
        },
        f,
    )
}
