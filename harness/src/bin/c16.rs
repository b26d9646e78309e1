//! C16: additions, removals, splits, flips and collapses mixed in every order agree with the same
//! edits on a plain list of triangles.
use ahash::AHashSet;
use mc::edits::*;
use mc::engine::*;
use mc::mesh::*;

fn walk(m: &M3, md: &Model, trace: &mut Vec<Op>, left: usize, c: &mut Ctx, name: &str, seen: &mut AHashSet<u64>) -> Res {
    if left == 0 {
        return Ok(());
    }
    c.tick();
    for op in md.ops() {
        trace.push(op);
        let (mut k, mut kd) = (m.clone(), md.clone());
        c.call(1);
        let done = step(&mut k, &mut kd, op, &|| format!("{name}: {trace:?}"))?;
        if done {
            c.hit(match op {
                Op::Add(_) => "added",
                Op::Remove(_) => "removed",
                Op::SplitFace(_) => "face split",
                Op::SplitEdge(..) => "edge split",
                Op::Flip(..) => "flipped",
                Op::Collapse(..) => "collapsed",
            });
            if seen.insert(kd.key()) {
                c.case();
            }
            walk(&k, &kd, trace, left - 1, c, name, seen)?;
        } else {
            c.hit("refused");
        }
        trace.pop();
    }
    Ok(())
}

fn surface(name: &'static str, n: usize, ts: Vec<Tri>, depth: usize) -> Family {
    // one case per first edit
    let (m, md) = start(n, &ts);
    let ops = md.ops();
    family(name.replace(' ', "-"), ops.len() as u64, move |i, c| {
        let op = ops[i as usize];
        c.sample(|| format!("{name}: all histories of {depth} edits that begin with {op:?}"));
        let (mut k, mut kd) = (m.clone(), md.clone());
        c.case();
        c.call(1);
        if step(&mut k, &mut kd, op, &|| format!("{name}: {op:?}"))? {
            walk(&k, &kd, &mut vec![op], depth - 1, c, name, &mut AHashSet::new())?;
        }
        Ok(())
    })
}

/// every edit, or pair of edits, on surfaces of every size
fn sizes(max: usize, twice: usize) -> Family {
    let all = sized(max);
    family("sizes", all.len() as u64, move |i, c| {
        let (name, n, ts) = &all[i as usize];
        let (m, md) = start(*n, ts);
        walk(&m, &md, &mut vec![], 1 + (*n <= twice) as usize, c, name, &mut AHashSet::new())
    })
}

fn main() {
    let th = thorough() as usize;
    let mut f = vec![];
    f.push(surface("triangle", 3, vec![[0, 1, 2]], 4 + th));
    f.push(surface("square", 4, vec![[0, 1, 2], [0, 2, 3]], 4));
    f.push(surface("two-sided triangle", 3, vec![[0, 1, 2], [0, 2, 1]], 4 + th));
    for (name, n, ts) in surfaces() {
        let d = if name == "tetrahedron" { 4 } else { 3 + (th == 1 && ts.len() <= 6) as usize };
        f.push(surface(name, n, ts, d));
    }
    f.push(sizes(70 + 60 * th, 12));
    run_check(
        "C16",
        Opts {
            rule: "every sequence of additions, removals, face and edge splits, flips and collapses on fifteen small surfaces to the depth bound".into(),
            assumptions: vec!["pinched surfaces are not collapsed".into(), "triangles are added only where they close a corner of the border".into()],
            ..Default::default()
        },
        f,
    )
}
