//! C24: any text read as a mesh file is either refused with an error or gives exactly what it lists.
use cgar::io::{obj, off, stl};
use cgar::mesh::basic_types::Mesh;
use mc::engine::*;
use mc::ensure;
use mc::geo::*;
use mc::mesh::*;
use mc::per_scalar;
use rug::Rational;
use std::collections::BTreeSet;

/// What a plain reading of the text gives.
#[derive(Default, Debug)]
struct Plain {
    /// has to be refused
    bad: bool,
    /// may be refused, or read in part
    odd: bool,
    /// may be refused, but if not, what is listed here must come out
    maybe: bool,
    v: Vec<[f64; 3]>,
    t: Vec<Tri>,
    /// triangles that come out even if other lines are odd
    whole: Vec<[[f64; 3]; 3]>,
}

impl Plain {
    fn coords<'a>(&mut self, mut it: impl Iterator<Item = &'a str>) {
        let c: Vec<f64> = (0..3).filter_map(|_| it.next().and_then(|s| s.parse::<f64>().ok()).filter(|x| x.is_finite())).collect();
        match c[..] {
            [x, y, z] => self.v.push([x, y, z]),
            _ => self.bad = true,
        }
    }
    fn tri(&mut self, t: Tri) {
        let used: BTreeSet<(usize, usize)> = self.t.iter().flat_map(|t| dirs(*t)).collect();
        let free = |t: Tri| dirs(t).iter().all(|d| !used.contains(d));
        let back = [t[0], t[2], t[1]];
        // no triangle, or one the surface has no room for, is left out; one that fits the other way is turned
        if t[0] == t[1] || t[1] == t[2] || t[2] == t[0] || !free(t) && !free(back) {
            self.maybe = true;
        } else if free(t) {
            self.t.push(t);
        } else {
            self.maybe = true;
            self.t.push(back);
        }
    }
}

fn plain_obj(s: &str) -> Plain {
    let mut p = Plain::default();
    let total = s.lines().filter(|l| l.split_whitespace().next() == Some("v")).count();
    for l in s.lines() {
        let mut it = l.split_whitespace();
        match it.next() {
            Some("v") => p.coords(it),
            Some("f") => {
                let w: Vec<&str> = it.collect();
                if w.len() < 3 {
                    p.bad = true;
                    continue;
                }
                if w.len() > 3 || w.iter().any(|x| x.contains('/') || x.starts_with('-')) {
                    p.odd = true; // legal elsewhere, not supported
                    continue;
                }
                let ix: Vec<usize> = w.iter().filter_map(|x| x.parse().ok()).filter(|i| (1..=total).contains(i)).collect();
                match ix[..] {
                    [i, j, k] => {
                        if ix.iter().any(|i| *i > p.v.len()) {
                            p.odd = true; // vertices listed only later
                        } else {
                            p.tri([i - 1, j - 1, k - 1]);
                        }
                    }
                    _ => p.bad = true,
                }
            }
            Some(w) if w.starts_with('#') || ["vn", "vt", "o", "g", "s", "usemtl"].contains(&w) => {}
            Some(_) => p.maybe = true, // left out
            None => {}
        }
    }
    p
}

fn plain_off(s: &str) -> Plain {
    let mut p = Plain::default();
    let w: Vec<&str> = s.lines().flat_map(|l| l.split('#').next().unwrap().split_whitespace()).collect();
    let mut it = w.into_iter();
    if it.next() != Some("OFF") {
        p.bad = true;
        return p;
    }
    let n: Vec<Option<usize>> = (0..3).map(|_| it.next().and_then(|x| x.parse().ok())).collect();
    let (Some(nv), Some(nf), Some(_)) = (n[0], n[1], n[2]) else {
        p.bad = true;
        return p;
    };
    for _ in 0..nv {
        p.coords(&mut it);
        if p.bad {
            return p;
        }
    }
    for _ in 0..nf {
        let Some(k) = it.next().and_then(|x| x.parse::<usize>().ok()) else {
            p.bad = true;
            return p;
        };
        let mut ix = vec![];
        let mut ok = true;
        for _ in 0..k {
            match it.next() {
                Some(x) => match x.parse::<usize>() {
                    Ok(i) if i < nv => ix.push(i),
                    _ => ok = false,
                },
                None => {
                    p.bad = true;
                    return p;
                }
            }
        }
        if k != 3 {
            p.maybe = true; // other polygons are left out
        } else if ok {
            p.tri([ix[0], ix[1], ix[2]]);
        } else {
            p.bad = true;
            return p;
        }
    }
    if it.next().is_some() {
        p.maybe = true;
    }
    p
}

fn plain_stl(s: &str) -> Plain {
    let mut p = Plain::default();
    // the lines have to come in this order
    let mut at = 0;
    let mut cur = vec![];
    // how far a facet has come that is complete whatever is around it
    let (mut sub, mut three) = (0, vec![]);
    for l in s.lines() {
        let mut it = l.split_whitespace();
        let word = match it.next() {
            Some(w) => w,
            None => continue,
        };
        sub = match (sub, word) {
            (_, "facet") => {
                three.clear();
                1
            }
            (1, "outer") => 2,
            (2 | 3 | 4, "vertex") => {
                three.push(p.v.len());
                sub + 1
            }
            (5, "endloop") => 6,
            (6, "endfacet") if three.iter().all(|i| *i < p.v.len()) => {
                p.whole.push([p.v[three[0]], p.v[three[1]], p.v[three[2]]]);
                0
            }
            _ => 0,
        };
        if word == "endsolid" {
            p.odd |= at != 1;
            at = 8;
            break;
        }
        at = match (at, word) {
            (0, "solid") => 1,
            (1, "facet") => 2,
            (2, "outer") => 3,
            (3 | 4 | 5, "vertex") => {
                cur.push(p.v.len());
                at + 1
            }
            (6, "endloop") => 7,
            (7, "endfacet") => {
                if let [a, b, c] = cur[..] {
                    p.t.push([a, b, c]);
                }
                cur.clear();
                1
            }
            _ => {
                p.odd = true;
                at
            }
        };
        if word == "vertex" {
            p.coords(it);
        }
    }
    p.odd |= at != 8;
    p
}

fn plain(format: usize, s: &str) -> Plain {
    match format {
        0 => plain_obj(s),
        1 => plain_off(s),
        _ => plain_stl(s),
    }
}

const FORMATS: [&str; 3] = ["obj", "off", "stl"];

fn file() -> std::path::PathBuf {
    thread_local! {
        static F: std::path::PathBuf = {
            static N: std::sync::atomic::AtomicUsize = std::sync::atomic::AtomicUsize::new(0);
            scratch_dir().join(format!("text-{}", N.fetch_add(1, std::sync::atomic::Ordering::Relaxed)))
        };
    }
    F.with(|f| f.clone())
}

per_scalar! {
    use super::*;
    pub fn one(format: usize, text: &[u8], c: &mut Ctx) -> Res {
        let p = file();
        std::fs::write(&p, text).unwrap();
        c.case();
        // each line moves the reader on
        c.call(1 + text.iter().filter(|b| **b == b'\n').count() as u64);
        c.tick();
        let r: Result<std::io::Result<Mesh<T, 3>>, String> = guarded(|| match format {
            0 => obj::read_obj::<T, _>(&p),
            1 => off::read_off::<T, _>(&p),
            _ => stl::read_stl::<T, _>(&p),
        });
        let w = || format!("{} {} {:?}", T::NAME, FORMATS[format], String::from_utf8_lossy(text));
        let r = match r {
            Ok(r) => r,
            Err(e) => return fail(format!("{}-panic", FORMATS[format]), format!("{}: {e}", w())),
        };
        let want = std::str::from_utf8(text).ok().map(|s| plain(format, s));
        let m = match (r, &want) {
            (Err(_), Some(p)) => {
                ensure!(p.bad || p.odd || p.maybe, format!("{}-refused", FORMATS[format]), "{}: refused", w());
                c.hit(if p.bad { "refused" } else { "refused as unsupported" });
                return Ok(());
            }
            (Err(_), None) => {
                c.hit("refused as no text");
                return Ok(());
            }
            (Ok(m), _) => m,
        };
        if let Err(e) = invariants(&m) {
            return fail(format!("{}-mesh", FORMATS[format]), format!("{}: {e}", w()));
        }
        ensure!(m.vertices.iter().all(|v| (0..3).all(|i| v.position[i].val().is_some())), format!("{}-finite", FORMATS[format]), "{}: a coordinate is not finite", w());
        let p = match want {
            Some(p) => p,
            None => return Ok(()),
        };
        ensure!(!p.bad, format!("{}-accepted", FORMATS[format]), "{}: accepted with {} vertices and triangles {:?}", w(), m.vertices.len(), soup(&m));
        if p.odd {
            let pos: Vec<[Option<Rational>; 3]> = m.vertices.iter().map(|v| std::array::from_fn(|k| v.position[k].val())).collect();
            let mut got: Vec<Tri> = live_faces(&m).into_iter().map(|f| face_tri(&m, f)).collect();
            for t in &p.whole {
                let t = t.map(|v| v.map(Rational::from_f64));
                let i = got.iter().position(|g| (0..3).any(|r| (0..3).all(|k| pos[g[(k + r) % 3]] == t[k])));
                match i {
                    Some(i) => _ = got.remove(i),
                    None => return fail(format!("{}-whole", FORMATS[format]), format!("{}: the triangle {t:?} was not read", w())),
                }
            }
            if format == 0 {
                ensure!(pos == p.v.iter().map(|v| v.map(Rational::from_f64)).collect::<Vec<_>>(), "obj-listed", "{}: vertices {:?}", w(), m.vertices.iter().map(|v| &v.position).collect::<Vec<_>>());
            }
            c.hit("read in part");
            return Ok(());
        }
        ensure!(m.vertices.len() == p.v.len(), format!("{}-vertices", FORMATS[format]), "{}: {} vertices", w(), m.vertices.len());
        for (i, v) in p.v.iter().enumerate() {
            ensure!((0..3).all(|k| m.vertices[i].position[k].val() == Rational::from_f64(v[k])), format!("{}-position", FORMATS[format]), "{}: vertex {i} is {:?}", w(), m.vertices[i].position);
        }
        let got: Vec<Tri> = live_faces(&m).into_iter().map(|f| canon(face_tri(&m, f))).collect();
        ensure!(got == p.t.iter().map(|t| canon(*t)).collect::<Vec<_>>(), format!("{}-triangles", FORMATS[format]), "{}: triangles {got:?}", w());
        c.hit("read");
        Ok(())
    }
    /// every sequence of lines after a start
    pub fn lines(format: usize, start: &'static str, alphabet: Vec<&'static str>, len: usize) -> Family {
        let n = alphabet.len();
        family(format!("{}-{}-lines-{}-{len}", T::NAME, FORMATS[format], start.lines().count()), (n as u64).pow(len as u32), move |i, c| {
            let mut d = Dec(i);
            let mut s = start.to_string();
            for _ in 0..len {
                s.push_str(alphabet[d.take(n)]);
                s.push('\n');
            }
            one(format, s.as_bytes(), c)
        })
    }
    /// every word of a good file replaced, left out or doubled, up to twice
    pub fn words(format: usize, good: &'static str, by: Vec<&'static str>, times: usize) -> Family {
        let w: Vec<&str> = good.split_inclusive(char::is_whitespace).collect();
        let per = w.len() * (by.len() + 2);
        family(format!("{}-{}-words-{}-{times}", T::NAME, FORMATS[format], w.len()), (per as u64).pow(times as u32), move |i, c| {
            let mut d = Dec(i);
            let mut t: Vec<String> = w.iter().map(|s| s.to_string()).collect();
            for _ in 0..times {
                let (k, e) = (d.take(w.len()), d.take(by.len() + 2));
                let end = if w[k].ends_with('\n') { "\n" } else { " " };
                t[k] = if e < by.len() { format!("{}{end}", by[e]) } else if e == by.len() { end.into() } else { w[k].repeat(2) };
            }
            one(format, t.concat().as_bytes(), c)
        })
    }
    /// every line of a good file replaced, left out or doubled, up to twice
    pub fn edited_lines(format: usize, good: &'static str, by: Vec<&'static str>, times: usize) -> Family {
        let l: Vec<&str> = good.lines().collect();
        let per = l.len() * (by.len() + 2);
        family(format!("{}-{}-edited-lines-{}-{times}", T::NAME, FORMATS[format], l.len()), (per as u64).pow(times as u32), move |i, c| {
            let mut d = Dec(i);
            let mut t: Vec<String> = l.iter().map(|s| format!("{s}\n")).collect();
            for _ in 0..times {
                let (k, e) = (d.take(l.len()), d.take(by.len() + 2));
                t[k] = if e < by.len() { format!("{}\n", by[e]) } else if e == by.len() { String::new() } else { format!("{0}\n{0}\n", l[k]) };
            }
            one(format, t.concat().as_bytes(), c)
        })
    }
    /// every byte of a good file replaced, left out or put in, and the file cut short anywhere
    pub fn bytes(format: usize, good: &'static str) -> Family {
        let by: Vec<u8> = (0..=255).collect();
        let per = 2 * by.len() + 2;
        family(format!("{}-{}-bytes-{}", T::NAME, FORMATS[format], good.len()), (good.len() * per) as u64, move |i, c| {
            let mut d = Dec(i);
            let (k, e) = (d.take(good.len()), d.take(per));
            let mut t = good.as_bytes().to_vec();
            if e < by.len() {
                t[k] = by[e];
            } else if e < 2 * by.len() {
                t.insert(k, by[e - by.len()]);
            } else if e == 2 * by.len() {
                t.remove(k);
            } else {
                t.truncate(k);
            }
            one(format, &t, c)
        })
    }
}

const OBJ: &str = "# a fan\nv 0 0 0\nv 1 0 0\nv 0 1.5 -2\nv 1e2 -3 0.25\nf 1 2 3\nf 3 2 4\n";
const OFF: &str = "OFF\n4 2 0\n0 0 0\n1 0 0\n0 1.5 -2\n1e2 -3 0.25\n3 0 1 2\n3 2 1 3\n";
const STL: &str = "solid a\n facet normal 0 0 1\n  outer loop\n   vertex 0 0 0\n   vertex 1 0 0\n   vertex 0 1.5 -2\n  endloop\n endfacet\n facet normal 0 0 1\n  outer loop\n   vertex 0 0 0\n   vertex 1e2 0 0\n   vertex 0 1 0\n  endloop\n endfacet\nendsolid a\n";

fn main() {
    let th = thorough() as usize;
    let three = "v 0 0 0\nv 1 0 0\nv 0 1 0\n";
    let some: Vec<&str> = vec!["v 0 0 0", "v 1 0 0", "v 0 1 0", "v 1 1 1 1", " v\t5  6 7 ", "f 1 2 3", "f 3 2 1", "f 2 3 4", "f 1 3 4", "", "# f 9 9 9", "vn 0 0 1"];
    let bad: Vec<&str> = vec![
        "v", "v 1", "v 1 2", "v a 0 0", "v 0 0 nan", "v 0 inf 0", "v -1e400 0 0", "v 0,5 0 0", "f", "f 1", "f 1 2", "f 0 1 2", "f 1 0 2", "f 1 2 0", "f 4 1 2", "f 1 2 9", "f 1 2 x", "f -1 -2 -3", "f 1/1 2/2 3/3", "f 1//1 2//1 3//1", "f 1 1 2", "f 1 2 1", "f 1 2 3 4",
        "f 99999999999999999999 1 2", "f 18446744073709551615 1 2", "f 1.0 2 3", "l 1 2", "v 0 0 0 f 1 2 3",
    ];
    let all: Vec<&str> = some.iter().chain(&bad).copied().collect();
    let words = vec!["0", "1", "2", "3", "4", "5", "-1", "x", "nan", "1e999", "1.5", "99999999999999999999", "18446744073709551615", "1000000000000", "#", "OFF", "v", "f", "\n"];
    let facets = vec![
        "solid a", "facet normal 0 0 1", "facet", "outer loop", "vertex 0 0 0", "vertex 5 6 7", "vertex 1 2", "vertex a 0 0", "vertex 0 nan 0", "vertex 0 0 -inf", "vertex", "vertex 1 2 3 4", "endloop", "endfacet", "endsolid a", "", "junk",
    ];
    let mut f = vec![];
    for len in 0..=3 {
        f.push(sf::lines(0, "", all.clone(), len));
        f.push(sf::lines(0, three, all.clone(), len));
    }
    f.push(sr::lines(0, three, all.clone(), 2));
    f.push(sl::lines(0, three, all.clone(), 2));
    f.push(sf::lines(0, "", some.clone(), 4 + th));
    f.push(sf::words(0, OBJ, words.clone(), 2));
    f.push(sf::words(1, OFF, words.clone(), 2));
    f.push(sr::words(1, OFF, words.clone(), 1));
    f.push(sl::words(1, OFF, words.clone(), 1));
    f.push(sf::words(2, STL, words.clone(), 1));
    f.push(sf::edited_lines(2, STL, facets.clone(), 2));
    f.push(sr::edited_lines(2, STL, facets.clone(), 1));
    f.push(sl::edited_lines(2, STL, facets.clone(), 1));
    f.push(sf::lines(2, "solid a\n", facets.clone(), 3 + th));
    f.push(sf::lines(2, "solid a\nfacet normal 0 0 0\nouter loop\nvertex 0 0 0\nvertex 1 0 0\n", facets.clone(), 3 + th));
    f.push(sf::lines(1, "OFF\n3 1 0\n0 0 0 1 0 0 0 1 0\n", vec!["3 0 1 2", "3 2 1 0", "3 0 1 3", "3 0 1", "4 0 1 2 0", "4 0 1", "2 0 1", "0", "3 0 0 1", "3 -1 0 1", "3 # 0 1 2", "", "x", "3 0 1 2 3"], 3));
    f.push(sf::bytes(0, OBJ));
    f.push(sf::bytes(1, OFF));
    f.push(sf::bytes(2, STL));
    run_check(
        "C24",
        Opts {
            rule: "every sequence of well and ill formed lines to the length, every pair of word or line edits and every byte edit of a good file in each format, each read and compared with a plain reading of the text".into(),
            assumptions: vec!["constructs the readers do not support (polygons, slashes, negative indices, lines out of order) may be refused or read in part, but must not crash or give a broken mesh".into()],
            ..Default::default()
        },
        f,
    )
}
