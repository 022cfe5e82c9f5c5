//! P01, P02, P03: searches on an index at rest
use crate::gen::*;
use crate::rng::Rng;
use crate::{Case, Outcome};
use anndists::dist::Distance;
use hnsw_rs::prelude::*;
use std::collections::{HashMap, HashSet};

struct Q {
    q: Vec<f32>,
    k: usize,
    ef: usize,
    filter: u8, // 0 none, 1 list, 2 predicate
    allowed: Vec<usize>,
}
fn query(r: &mut Rng, p: &Params, ids: &[usize], filtered: bool) -> Q {
    let filter = if filtered { 1 + r.below(2) as u8 } else { 0 };
    let mut allowed: Vec<usize> = match r.below(4) {
        0 => vec![],
        1 => ids.iter().copied().filter(|_| r.chance(1, 6)).collect(),
        2 => ids.iter().copied().filter(|_| r.chance(1, 2)).collect(),
        _ => ids.iter().copied().filter(|_| r.chance(9, 10)).collect(),
    };
    if r.chance(1, 3) {
        allowed.push(usize::MAX);
        allowed.push(1_234_567);
    }
    allowed.sort();
    allowed.dedup();
    Q {
        q: vector(r, p.dim, p.span),
        k: *r.pick(&[0, 1, 1, 2, 3, 5, 10, 30, 100]),
        ef: *r.pick(&[0, 1, 1, 2, 2, 3, 5, 10, 30, 100, 200]),
        filter,
        allowed,
    }
}
fn ask(h: &Hnsw<'static, f32, D>, q: &Q) -> Vec<Neighbour> {
    match q.filter {
        0 => h.search(&q.q, q.k, q.ef),
        1 => h.search_filter(&q.q, q.k, q.ef, Some(&q.allowed)),
        _ => {
            let s: HashSet<usize> = q.allowed.iter().copied().collect();
            let f = |id: &DataId| s.contains(id);
            h.search_filter(&q.q, q.k, q.ef, Some(&f))
        }
    }
}
fn describe(p: &Params, b: &Built, q: &Q, ans: &[Neighbour], pts: &[Pt]) -> String {
    let mut s = format!("{:?} query {:?} k {} ef {} filter {} allowed {:?} answer {:?}", p, q.q, q.k, q.ef, q.filter, q.allowed, ans.iter().map(|n| (n.d_id, n.distance, n.p_id)).collect::<Vec<_>>());
    if b.items.len() <= 12 {
        s.push_str(&format!(" items {:?} links {:?}", b.items, pts.iter().map(|p| (p.pid, p.nb.iter().map(|l| l.iter().map(|n| n.p_id).collect::<Vec<_>>()).collect::<Vec<_>>())).collect::<Vec<_>>()));
    }
    s
}
fn run(case: u64, which: u8) -> Outcome {
    let mut r = Rng::new(case);
    let mut p = Params::random(&mut r, if r_big(case) { 120 } else { 40 });
    p.dup = r.chance(1, 6);
    note(format!("building {:?}", p));
    let b = build(&mut r, &p);
    let pts = points(&b.h, p.max_layer);
    let by: HashMap<PointId, &Pt> = pts.iter().map(|x| (x.pid, x)).collect();
    let ids: Vec<usize> = b.items.iter().map(|x| x.1).collect();
    let base = pts.iter().map(|x| x.pid.0).min().unwrap_or(0) as usize;
    let mut nontrivial = false;
    let mut text = String::new();
    for _ in 0..12 {
        let filtered = if which == 2 { true } else { r.chance(1, 3) };
        let q = query(&mut r, &p, &ids, filtered);
        note(format!("{:?} query {:?} k {} ef {} filter {} allowed {:?}", p, q.q, q.k, q.ef, q.filter, q.allowed));
        let ans = ask(&b.h, &q);
        let bad = |m: &str| Err(format!("{}: {}", m, describe(&p, &b, &q, &ans, &pts)));
        let ok = |id: usize| q.filter == 0 || q.allowed.contains(&id);
        let d = |x: &Pt| b.h.get_distance().eval(&q.q, &x.v);
        if which == 1 {
            if ans.len() > q.k {
                return bad("more answers than asked");
            }
            for a in &ans {
                match by.get(&a.p_id) {
                    None => return bad("an answer names no stored point"),
                    Some(x) => {
                        if x.id != a.d_id || a.get_origin_id() != x.id {
                            return bad("an answer's client id is not that of its point");
                        }
                        if a.distance.to_bits() != d(x).to_bits() || a.get_distance().to_bits() != a.distance.to_bits() {
                            return bad("an answer's distance is not the distance to its point");
                        }
                    }
                }
            }
            for w in ans.windows(2) {
                if !(w[0].distance <= w[1].distance) {
                    return bad("answers are not in increasing distance");
                }
            }
            if ans.iter().map(|a| a.p_id).collect::<HashSet<_>>().len() != ans.len() {
                return bad("the same point is answered twice");
            }
            nontrivial |= ans.len() >= 2;
        }
        if which == 2 {
            if let Some(_) = ans.iter().find(|a| !ok(a.d_id)) {
                return bad("the filter rejects an answer");
            }
            if p.n > 0 && q.ef >= 2 && ans.len() < q.k.min(q.ef) {
                let got: HashSet<PointId> = ans.iter().map(|a| a.p_id).collect();
                // is there a point from which everything reachable and allowed was answered?
                let mut any = false;
                // the descent from the entry point only gets nearer
                let e = by[&b.h.verif_entry_point().unwrap()];
                for s in &pts {
                    if s.pid != e.pid && (e.pid.0 == 0 || d(s) > d(e)) {
                        continue;
                    }
                    let mut seen: HashSet<PointId> = HashSet::new();
                    let mut todo = vec![s.pid];
                    let mut all = true;
                    while let Some(x) = todo.pop() {
                        if !seen.insert(x) {
                            continue;
                        }
                        let x = by[&x];
                        if ok(x.id) && !got.contains(&x.pid) {
                            all = false;
                            break;
                        }
                        for n in &x.nb[base] {
                            todo.push(n.p_id);
                        }
                    }
                    if all {
                        any = true;
                        break;
                    }
                }
                if !any {
                    return bad("too few answers although an allowed point is reachable from wherever the search started");
                }
                nontrivial |= !ans.is_empty();
            }
        }
        if which == 3 {
            let got: HashSet<PointId> = ans.iter().map(|a| a.p_id).collect();
            for a in &ans {
                let Some(x) = by.get(&a.p_id) else { continue };
                for n in &x.nb[base] {
                    let y = by[&n.p_id];
                    if ok(y.id) && !got.contains(&y.pid) && !(ans.len() >= q.k && ans.iter().all(|z| z.distance <= d(y))) {
                        return bad(&format!("point {:?} linked from answer {:?} is nearer than a returned one or there was room for it", y.pid, a.p_id));
                    }
                    nontrivial |= ok(y.id) && !got.contains(&y.pid);
                }
            }
            if q.filter == 0 && q.ef >= p.n && p.n > 0 {
                // every point reachable from every other: the answer is the exact one
                let strongly = pts.iter().all(|s| {
                    let mut seen: HashSet<PointId> = HashSet::new();
                    let mut todo = vec![s.pid];
                    while let Some(x) = todo.pop() {
                        if seen.insert(x) {
                            todo.extend(by[&x].nb[base].iter().map(|n| n.p_id));
                        }
                    }
                    seen.len() == pts.len()
                });
                if strongly {
                    let mut all: Vec<f32> = pts.iter().map(|x| d(x)).collect();
                    all.sort_by(|a, b| a.partial_cmp(b).unwrap());
                    all.truncate(q.k);
                    let have: Vec<f32> = ans.iter().map(|a| a.distance).collect();
                    if all != have {
                        return bad("everything is reachable and ef covers all points, but the answer is not the exact list of nearest points");
                    }
                }
            }
        }
        text = format!("{:?} k {} ef {} filter {} -> {} answers", p, q.k, q.ef, q.filter, ans.len());
    }
    Ok(Case { text, nontrivial })
}
fn r_big(case: u64) -> bool {
    case % 5 == 0
}
pub fn p01(case: u64) -> Outcome {
    run(case, 1)
}
pub fn p02(case: u64) -> Outcome {
    run(case, 2)
}
pub fn p03(case: u64) -> Outcome {
    run(case, 3)
}
