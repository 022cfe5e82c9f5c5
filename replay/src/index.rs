//! P04 to P09, P15, P16, P18: what an index says about its points
use crate::gen::*;
use crate::rng::Rng;
use crate::{Case, Outcome};
use hnsw_rs::flatten::FlatNeighborhood;
use hnsw_rs::prelude::*;
use std::collections::{BTreeMap, BTreeSet, HashMap};
use std::sync::Barrier;

/// how the points of a case are inserted
fn insert_all(r: &mut Rng, h: &Hnsw<'static, f32, D>, items: &[(Vec<f32>, usize)]) -> &'static str {
    match r.below(4) {
        0 | 1 => {
            for (v, id) in items {
                h.insert((v.as_slice(), *id));
            }
            "one by one"
        }
        2 => {
            let cut = r.below(items.len() + 1);
            if r.chance(1, 2) {
                let d: Vec<(&Vec<f32>, usize)> = items[..cut].iter().map(|x| (&x.0, x.1)).collect();
                h.parallel_insert(&d);
                let d: Vec<(&Vec<f32>, usize)> = items[cut..].iter().map(|x| (&x.0, x.1)).collect();
                h.parallel_insert(&d);
            } else {
                let d: Vec<(&[f32], usize)> = items.iter().map(|x| (x.0.as_slice(), x.1)).collect();
                h.parallel_insert_slice(&d);
            }
            "in parallel"
        }
        _ => {
            let nt = r.range(2, 4);
            let bar = Barrier::new(nt);
            std::thread::scope(|s| {
                for t in 0..nt {
                    let bar = &bar;
                    s.spawn(move || {
                        bar.wait();
                        for (v, id) in items.iter().skip(t).step_by(nt) {
                            h.insert_slice((v, *id));
                        }
                    });
                }
            });
            "by several threads"
        }
    }
}
struct Made {
    p: Params,
    h: Hnsw<'static, f32, D>,
    items: Vec<(Vec<f32>, usize)>,
    how: &'static str,
}
fn make(r: &mut Rng, nmax: usize, dup: bool) -> Made {
    let mut p = Params::random(r, nmax);
    if r.chance(1, 3) {
        p.n = p.n.min(4); // races between first insertions
    }
    p.dup = dup && r.chance(1, 6);
    let h = empty(&p);
    let it = items(r, &p);
    note(format!("inserting {:?}", p));
    let how = insert_all(r, &h, &it);
    note(format!("inserted {} {:?}", how, p));
    Made { p, h, items: it, how }
}

/// P04
pub fn p04(case: u64) -> Outcome {
    let mut r = Rng::new(case);
    let b = make(&mut r, 90, true);
    let mut full = 0;
    for x in points(&b.h, b.p.max_layer) {
        for (l, nb) in x.nb.iter().enumerate() {
            let cap = if l == 0 { 2 * b.p.m } else { b.p.m };
            if nb.len() > cap {
                return Err(format!("{:?} inserted {}: point {:?} has {} neighbours at layer {}, at most {} allowed", b.p, b.how, x.pid, nb.len(), l, cap));
            }
            full += (nb.len() == cap) as usize;
        }
    }
    Ok(Case { text: format!("{:?} {}: {} full lists", b.p, b.how, full), nontrivial: full > 0 })
}

fn check_links(p: &Params, pts: &[Pt]) -> Result<usize, String> {
    let d = dist_of(p.dist);
    let by: HashMap<PointId, &Pt> = pts.iter().map(|x| (x.pid, x)).collect();
    let mut n = 0;
    for x in pts {
        for (l, nb) in x.nb.iter().enumerate() {
            let mut seen = BTreeSet::new();
            let mut last = f32::NEG_INFINITY;
            for e in nb {
                n += 1;
                let Some(q) = by.get(&e.p_id) else {
                    return Err(format!("{:?} has a neighbour {:?} at layer {} that is not stored", x.pid, e, l));
                };
                if e.p_id == x.pid {
                    return Err(format!("{:?} is its own neighbour at layer {}", x.pid, l));
                }
                if q.id != e.d_id {
                    return Err(format!("{:?} at layer {}: neighbour {:?} has client id {}", x.pid, l, e, q.id));
                }
                let t = anndists::dist::Distance::eval(&d, &x.v, &q.v);
                if t != e.distance {
                    return Err(format!("{:?} at layer {}: neighbour {:?} is at distance {}", x.pid, l, e, t));
                }
                if !seen.insert(e.p_id) {
                    return Err(format!("{:?} names {:?} twice at layer {}", x.pid, e.p_id, l));
                }
                if e.distance < last {
                    return Err(format!("the neighbours of {:?} at layer {} are not sorted: {:?}", x.pid, l, nb));
                }
                last = e.distance;
            }
        }
    }
    Ok(n)
}
/// P05
pub fn p05(case: u64) -> Outcome {
    let mut r = Rng::new(case);
    if r.chance(1, 2) {
        // the effect of one insertion
        let mut p = Params::random(&mut r, 50);
        p.par = false;
        let h = empty(&p);
        let it = items(&mut r, &p);
        let mut before: Vec<Pt> = vec![];
        let mut dropped = 0;
        for (k, (v, id)) in it.iter().enumerate() {
            note(format!("insertion {} of {:?}", k, p));
            h.insert_slice((v, *id));
            let after = points(&h, p.max_layer);
            check_links(&p, &after).map_err(|e| format!("{:?} after insertion {}: {}", p, k, e))?;
            let old: HashMap<PointId, &Pt> = before.iter().map(|x| (x.pid, x)).collect();
            let new: Vec<&Pt> = after.iter().filter(|x| !old.contains_key(&x.pid)).collect();
            if new.len() != 1 {
                return Err(format!("{:?}: insertion {} stored {} points", p, k, new.len()));
            }
            let x = new[0];
            let lx = x.pid.0 as usize;
            let mine: BTreeSet<PointId> = (0..=lx).flat_map(|l| x.nb[l].iter().map(|e| e.p_id)).collect();
            for q in &after {
                if q.pid == x.pid {
                    continue;
                }
                let o = old[&q.pid];
                for l in 0..q.nb.len() {
                    let was: Vec<PointId> = o.nb[l].iter().map(|e| e.p_id).collect();
                    let is: Vec<PointId> = q.nb[l].iter().map(|e| e.p_id).collect();
                    let cap = if l == 0 { 2 * p.m } else { p.m };
                    if l != lx || !mine.contains(&q.pid) {
                        if was != is {
                            return Err(format!("{:?}: insertion {} of {:?} changed the neighbours of {:?} at layer {} from {:?} to {:?}", p, k, x.pid, q.pid, l, was, is));
                        }
                        continue;
                    }
                    // x was linked back: everything that was there and x, less the farthest if that is too many
                    let dx = q_dist(&p, &q.v, &x.v);
                    let mut all: Vec<(PointId, f32)> = o.nb[l].iter().map(|e| (e.p_id, e.distance)).collect();
                    all.push((x.pid, dx));
                    let far = all.iter().map(|a| a.1).fold(0f32, f32::max);
                    let gone: Vec<&(PointId, f32)> = all.iter().filter(|a| !is.contains(&a.0)).collect();
                    let ok = if all.len() <= cap { gone.is_empty() } else { gone.len() == 1 && gone[0].1 == far };
                    if !ok || is.len() + gone.len() != all.len() {
                        return Err(format!("{:?}: insertion {} of {:?} at distance {}: neighbours of {:?} at layer {} were {:?}, are {:?}", p, k, x.pid, dx, q.pid, l, o.nb[l], q.nb[l]));
                    }
                    dropped += gone.len();
                }
            }
            before = after;
        }
        return Ok(Case { text: format!("{:?}, insertion by insertion, {} links dropped", p, dropped), nontrivial: dropped > 0 });
    }
    let b = make(&mut r, 90, true);
    let pts = points(&b.h, b.p.max_layer);
    let n = check_links(&b.p, &pts).map_err(|e| format!("{:?} inserted {}: {}", b.p, b.how, e))?;
    Ok(Case { text: format!("{:?} {}: {} links", b.p, b.how, n), nontrivial: n > 20 })
}
/// P21
pub fn p21(case: u64) -> Outcome {
    let mut r = Rng::new(case);
    let mut p = Params::random(&mut r, 70);
    p.par = false;
    p.dup = r.chance(1, 4);
    let h = empty(&p);
    let it = items(&mut r, &p);
    let (mut back, mut full) = (0, 0);
    for (k, (v, id)) in it.iter().enumerate() {
        note(format!("insertion {} of {:?}", k, p));
        let old: BTreeSet<PointId> = points(&h, p.max_layer).iter().map(|x| x.pid).collect();
        if r.chance(1, 2) {
            h.insert_slice((v, *id));
        } else {
            h.insert((v, *id));
        }
        let after = points(&h, p.max_layer);
        let by: HashMap<PointId, &Pt> = after.iter().map(|x| (x.pid, x)).collect();
        for x in after.iter().filter(|x| !old.contains(&x.pid)) {
            let lx = x.pid.0 as usize;
            let cap = if lx == 0 { 2 * p.m } else { p.m };
            for l in 0..=lx {
                for e in &x.nb[l] {
                    let Some(q) = by.get(&e.p_id) else { continue };
                    if q.nb[lx].iter().any(|b| b.p_id == x.pid) {
                        back += 1;
                    } else if q.nb[lx].len() >= cap && q.nb[lx].iter().all(|b| b.distance <= e.distance) {
                        full += 1;
                    } else {
                        return Err(format!("{:?}: insertion {} stored {:?}, neighbour {:?} of it at layer {} at distance {} is not linked back: its list at layer {} is {:?}", p, k, x.pid, q.pid, l, e.distance, lx, q.nb[lx]));
                    }
                }
            }
        }
    }
    Ok(Case { text: format!("{:?}: {} links back, {} refused by full lists", p, back, full), nontrivial: back > 20 })
}
fn q_dist(p: &Params, a: &[f32], b: &[f32]) -> f32 {
    anndists::dist::Distance::eval(&dist_of(p.dist), a, b)
}

/// P06
pub fn p06(case: u64) -> Outcome {
    let mut r = Rng::new(case);
    let b = make(&mut r, 90, false);
    let pi = b.h.get_point_indexation();
    let say = |m: String| Err(format!("{:?} inserted {}: {}", b.p, b.how, m));
    if b.h.get_nb_point() != b.p.n || pi.get_nb_point() != b.p.n {
        return say(format!("{} points reported", b.h.get_nb_point()));
    }
    let per: usize = (0..b.p.max_layer).map(|l| pi.get_layer_nb_point(l)).sum();
    if per != b.p.n {
        return say(format!("the layers report {} points", per));
    }
    let want: BTreeMap<usize, &Vec<f32>> = b.items.iter().map(|x| (x.1, &x.0)).collect();
    let mut got = BTreeSet::new();
    for l in 0..b.p.max_layer {
        for k in 0..pi.get_layer_nb_point(l) {
            let id = PointId(l as u8, k as i32);
            note(format!("asking for {:?} of {:?}", id, b.p));
            let Some(v) = pi.get_point_data(&id) else {
                return say(format!("no vector for {:?}", id));
            };
            let x = pi.get_layer_iterator(l).nth(k).unwrap();
            if x.get_point_id() != id {
                return say(format!("the point stored at {:?} says it is {:?}", id, x.get_point_id()));
            }
            if want.get(&x.get_origin_id()) != Some(&&v) || x.get_v() != v.as_slice() {
                return say(format!("{:?}: client id {} vector {:?} / {:?}, inserted was {:?}", id, x.get_origin_id(), v, x.get_v(), want.get(&x.get_origin_id())));
            }
            if !got.insert(x.get_origin_id()) {
                return say(format!("client id {} is stored twice", x.get_origin_id()));
            }
        }
        // ids that name nothing
        for k in [-1, i32::MIN, pi.get_layer_nb_point(l) as i32, pi.get_layer_nb_point(l) as i32 + 1, i32::MAX] {
            let id = PointId(l as u8, k);
            note(format!("asking for {:?} of {:?}", id, b.p));
            if let Some(v) = pi.get_point_data(&id) {
                return say(format!("{:?} names no point but has vector {:?}", id, v));
            }
        }
    }
    for l in [b.p.max_layer as u8, 16, 17, 100, 255] {
        note(format!("asking for layer {} of {:?}", l, b.p));
        if pi.get_layer_nb_point(l as usize) != 0 || pi.get_point_data(&PointId(l, 0)).is_some() {
            return say(format!("layer {} does not exist but has points", l));
        }
    }
    let dim = pi.get_data_dimension();
    if dim != if b.p.n == 0 { 0 } else { b.p.dim } {
        return say(format!("dimension reported: {}", dim));
    }
    Ok(Case { text: format!("{:?} {}", b.p, b.how), nontrivial: b.p.n >= 2 })
}

/// P07
pub fn p07(case: u64) -> Outcome {
    let mut r = Rng::new(case);
    if r.chance(1, 3) {
        // after every single insertion
        let p = Params::random(&mut r, 40);
        let h = empty(&p);
        let mut last = 0;
        let mut top = 0;
        for (k, (v, id)) in items(&mut r, &p).iter().enumerate() {
            note(format!("insertion {} of {:?}", k, p));
            h.insert_slice((v, *id));
            let lv = h.get_max_level_observed();
            let pts = points(&h, p.max_layer);
            top = pts.iter().map(|x| x.pid.0).max().unwrap();
            let e = h.verif_entry_point();
            if lv < last || lv != top || e.map(|e| e.0) != Some(top) {
                return Err(format!("{:?} after insertion {}: entry point {:?}, level reported {}, before {}, highest point level {}", p, k, e, lv, last, top));
            }
            last = lv;
        }
        return Ok(Case { text: format!("{:?} insertion by insertion, top level {}", p, top), nontrivial: top > 0 && p.n > 1 });
    }
    // many small races, then one larger
    let rounds = if r.chance(1, 2) { 40 } else { 1 };
    let mut top = 0;
    let mut text = String::new();
    for _ in 0..rounds {
        let mut p = Params::random(&mut r, if rounds > 1 { 4 } else { 80 });
        if rounds > 1 {
            p.n = r.range(2, 4);
        }
        let h = empty(&p);
        let it = items(&mut r, &p);
        let nt = r.range(2, 4);
        let bar = Barrier::new(nt + 1);
        let done = std::sync::atomic::AtomicBool::new(false);
        note(format!("{} threads inserting {:?}", nt, p));
        let decreased = std::thread::scope(|s| {
            let (h, it, bar, done, p) = (&h, &it, &bar, &done, &p);
            let mut hs = vec![];
            for t in 0..nt {
                hs.push(s.spawn(move || {
                    bar.wait();
                    let mut bad = None;
                    for (v, id) in it.iter().skip(t).step_by(nt) {
                        h.insert_slice((v, *id));
                        // once an insertion has returned, the entry point is at least as high as its point
                        let lv = h.get_max_level_observed();
                        let p = (0..p.max_layer).find_map(|l| h.get_point_indexation().get_layer_iterator(l).find(|x| x.get_origin_id() == *id).map(|x| x.get_point_id()));
                        if let Some(x) = p {
                            if x.0 > lv {
                                bad = Some(format!("after the insertion of {:?} returned, the entry point level is {}", x, lv));
                            }
                        }
                    }
                    bad
                }));
            }
            let w = s.spawn(move || {
                bar.wait();
                let mut last = 0;
                while !done.load(std::sync::atomic::Ordering::Relaxed) {
                    let lv = h.get_max_level_observed();
                    if lv < last {
                        return Some(format!("the entry point level went from {} to {}", last, lv));
                    }
                    last = lv;
                    std::hint::spin_loop();
                }
                None
            });
            let mut bad = None;
            for x in hs {
                bad = bad.or(x.join().unwrap());
            }
            done.store(true, std::sync::atomic::Ordering::Relaxed);
            bad.or(w.join().unwrap())
        });
        if let Some(e) = decreased {
            return Err(format!("{:?}, {} threads: {}", p, nt, e));
        }
        let pts = points(&h, p.max_layer);
        top = pts.iter().map(|x| x.pid.0).max().unwrap_or(0);
        let e = h.verif_entry_point();
        if p.n > 0 && (h.get_max_level_observed() != top || e.map(|e| e.0) != Some(top)) {
            return Err(format!("{:?}, {} threads: entry point {:?}, highest point level {}", p, nt, e, top));
        }
        if p.n >= 2 {
            for x in &pts {
                if x.nb.iter().all(|l| l.is_empty()) {
                    return Err(format!("{:?}, {} threads: {:?} (client id {}) has no neighbour at all, entry point {:?}", p, nt, x.pid, x.id, e));
                }
            }
        }
        text = format!("{:?} by {} threads, top level {}", p, nt, top);
    }
    Ok(Case { text, nontrivial: rounds > 1 || top > 0 })
}

/// P08
pub fn p08(case: u64) -> Outcome {
    let mut r = Rng::new(case);
    let p = Params::random(&mut r, 60);
    note(format!("building {:?}", p));
    let b = build(&mut r, &p);
    let pi = b.h.get_point_indexation();
    // what is stored where, asked point by point
    let mut want: Vec<PointId> = vec![];
    for l in 0..p.max_layer {
        for k in 0..pi.get_layer_nb_point(l) {
            want.push(PointId(l as u8, k as i32));
        }
    }
    note(format!("iterating over {:?}", p));
    let extra = r.range(1, 20);
    let mut it = pi.into_iter();
    let mut got = vec![];
    for _ in 0..want.len() {
        match it.next() {
            Some(x) => got.push(x.get_point_id()),
            None => break,
        }
    }
    if got != want {
        return Err(format!("iteration over {:?} yields {:?}, stored are {:?}", p, got, want));
    }
    for k in 0..extra {
        note(format!("iterating over {:?}: call {} of next after the end", p, k + 1));
        if let Some(x) = it.next() {
            return Err(format!("iteration over {:?} yields {:?} after its end", p, x.get_point_id()));
        }
    }
    let ids: BTreeSet<usize> = pi.into_iter().map(|x| x.get_origin_id()).collect();
    if ids != b.items.iter().map(|x| x.1).collect() {
        return Err(format!("iteration over {:?} does not give the inserted client ids", p));
    }
    for l in 0..p.max_layer {
        note(format!("iterating over layer {} of {:?}", l, p));
        let mut it = pi.get_layer_iterator(l);
        let n = pi.get_layer_nb_point(l);
        for k in 0..n {
            let x = it.next().map(|x| x.get_point_id());
            if x != Some(PointId(l as u8, k as i32)) {
                return Err(format!("iteration over layer {} of {:?} yields {:?} at rank {}", l, p, x, k));
            }
        }
        for _ in 0..extra {
            if it.next().is_some() {
                return Err(format!("iteration over layer {} of {:?} goes on after {} points", l, p, n));
            }
        }
    }
    Ok(Case { text: format!("{:?}: {} points, {} calls after the end", p, want.len(), extra), nontrivial: p.n >= 2 && p.max_layer >= 2 })
}

/// P09
pub fn p09(case: u64) -> Outcome {
    let mut r = Rng::new(case);
    let mut p = Params::random(&mut r, 200);
    p.scale = 1.;
    let mut h = empty(&p);
    let mut want = h.get_point_indexation().get_level_scale();
    let base = 1. / (p.m as f64).ln();
    if want != base {
        return Err(format!("{:?}: level scale {}, expected {}", p, want, base));
    }
    let mut asked = vec![];
    for _ in 0..r.below(4) {
        let f = *r.pick(&[-1., 0., 0.1, 0.19999, 0.2, 0.25, 0.5, 0.7, 0.99, 1., 1.0001, 2., 100., f64::INFINITY, f64::NEG_INFINITY, f64::MIN_POSITIVE]);
        let f = if r.chance(1, 3) { r.below(3000) as f64 / 1000. - 0.5 } else { f };
        note(format!("modify_level_scale({}) on {:?}", f, p));
        h.modify_level_scale(f);
        asked.push(f);
        let g = if f > 1. { 1. } else if f < 0.2 { 0.2 } else { f };
        want *= g;
        let got = h.get_point_indexation().get_level_scale();
        if got != want {
            return Err(format!("{:?}: after modify_level_scale of {:?} the scale is {}, expected {}", p, asked, got, want));
        }
    }
    let it = items(&mut r, &p);
    for (v, id) in &it {
        note(format!("inserting into {:?}", p));
        h.insert_slice((v, *id));
    }
    let mut top = 0;
    for x in h.get_point_indexation() {
        top = top.max(x.get_point_id().0);
        if x.get_point_id().0 as usize >= p.max_layer {
            return Err(format!("{:?}: point {:?} is above the {} layers", p, x.get_point_id(), p.max_layer));
        }
    }
    Ok(Case { text: format!("{:?} modified by {:?}: top level {}", p, asked, top), nontrivial: !asked.is_empty() || top as usize + 1 == p.max_layer })
}

/// P15
pub fn p15(case: u64) -> Outcome {
    let mut r = Rng::new(case);
    let b = make(&mut r, 60, false);
    note(format!("flattening {:?}", b.p));
    let f = FlatNeighborhood::from(&b.h);
    let pts = points(&b.h, b.p.max_layer);
    let mut most = 0;
    for x in &pts {
        let Some(got) = f.get_neighbours(x.id) else {
            return Err(format!("{:?}: the flattened view has nothing for client id {}", b.p, x.id));
        };
        for w in got.windows(2) {
            if w[0].distance > w[1].distance {
                return Err(format!("{:?}: flattened neighbours of {} are not sorted: {:?}", b.p, x.id, got));
            }
        }
        let k = |n: &Neighbour| (n.p_id, n.d_id, n.distance.to_bits());
        let mut a: Vec<_> = got.iter().map(k).collect();
        let mut w: Vec<_> = x.nb.iter().flatten().map(k).collect();
        a.sort();
        w.sort();
        if a != w {
            return Err(format!("{:?}: flattened neighbours of {} are {:?}, stored ones are {:?}", b.p, x.id, a, w));
        }
        most = most.max(w.len());
    }
    let ids: BTreeSet<usize> = pts.iter().map(|x| x.id).collect();
    for k in 0..20 {
        let id = if k < 10 { k } else { r.next() as usize };
        if !ids.contains(&id) && f.get_neighbours(id).is_some() {
            return Err(format!("{:?}: the flattened view has neighbours for {}, which is not stored", b.p, id));
        }
    }
    Ok(Case { text: format!("{:?}: {} points, up to {} neighbours", b.p, pts.len(), most), nontrivial: most > 1 })
}

/// P16
pub fn p16(case: u64) -> Outcome {
    let mut r = Rng::new(case);
    let mut p = Params::random(&mut r, 80);
    if r.chance(1, 40) {
        // long lists, of lengths near those at which work may be split
        p.n = *r.pick(&[128, 129, 200, 257, 300, 513]);
        p.efc = p.efc.min(20);
    }
    let h = empty(&p);
    let mut it = items(&mut r, &p);
    if r.chance(1, 3) && p.n > 1 {
        // the same client id given twice
        let k = r.below(p.n);
        it[k].1 = it[0].1;
    }
    note(format!("parallel insertion of {:?}", p));
    let (first, rest) = it.split_at(if r.chance(1, 2) { it.len() } else { r.below(it.len() + 1) });
    for it in [first, rest] {
    if r.chance(1, 2) {
        let d: Vec<(&Vec<f32>, usize)> = it.iter().map(|x| (&x.0, x.1)).collect();
        h.parallel_insert(&d);
    } else {
        let d: Vec<(&[f32], usize)> = it.iter().map(|x| (x.0.as_slice(), x.1)).collect();
        h.parallel_insert_slice(&d);
    }
    }
    let key = |v: &[f32], id: usize| (id, v.iter().map(|x| x.to_bits()).collect::<Vec<_>>());
    let mut got: Vec<_> = points(&h, p.max_layer).iter().map(|x| key(&x.v, x.id)).collect();
    let mut want: Vec<_> = it.iter().map(|x| key(&x.0, x.1)).collect();
    got.sort();
    want.sort();
    if got != want || h.get_nb_point() != p.n {
        return Err(format!("parallel insertion of {:?}: stored {:?}, given {:?}", p, got, want));
    }
    let lens: [usize; 8] = if r.chance(1, 20) { [127, 128, 129, 256, 257, 300, 600, 1025] } else { [0, 1, 2, 5, 8, 17, 33, 60] };
    let nq = *r.pick(&lens);
    let (k, ef) = (r.range(1, 8), r.range(1, 20));
    let q: Vec<Vec<f32>> = (0..nq).map(|_| vector(&mut r, p.dim, p.span)).collect();
    note(format!("parallel search of {} queries in {:?}", nq, p));
    let a = h.parallel_search(&q, k, ef);
    if a.len() != nq {
        return Err(format!("{} answers for {} queries on {:?}", a.len(), nq, p));
    }
    for i in 0..nq {
        let s = h.search(&q[i], k, ef);
        let f = |n: &Neighbour| (n.d_id, n.p_id, n.distance.to_bits());
        if a[i].iter().map(f).collect::<Vec<_>>() != s.iter().map(f).collect::<Vec<_>>() {
            return Err(format!("{:?}: parallel answer {} is {:?}, single search gives {:?}", p, i, a[i], s));
        }
    }
    Ok(Case { text: format!("{:?}, {} queries k {} ef {}", p, nq, k, ef), nontrivial: nq > 1 && p.n > 1 })
}

/// P18
pub fn p18(case: u64) -> Outcome {
    let mut r = Rng::new(case);
    if r.chance(1, 2) {
        return p18_insert(case);
    }
    let mut p = Params::random(&mut r, 60);
    p.par = false;
    note(format!("building {:?}", p));
    let b = build(&mut r, &p);
    let pts = points(&b.h, p.max_layer);
    let by: HashMap<PointId, &Pt> = pts.iter().map(|x| (x.pid, x)).collect();
    let mut pruned = 0;
    let mut text = String::new();
    for _ in 0..8 {
        let q = if r.chance(1, 3) || pts.is_empty() { vector(&mut r, p.dim, p.span) } else { r.pick(&pts).v.clone() };
        let q: Vec<f32> = q.iter().map(|x| x + if r.chance(1, 2) { 0.25 } else { 0. }).collect();
        let mut pool: Vec<PointId> = pts.iter().map(|x| x.pid).collect();
        let mut cand = vec![];
        let nc = r.below(pool.len() + 1);
        for _ in 0..nc {
            cand.push(pool.swap_remove(r.below(pool.len())));
        }
        let asked = *r.pick(&[1, 2, 3, 5, 8, 16, 32]);
        let (extend, keep) = (r.chance(1, 3), r.chance(1, 2));
        let layer = r.below(2.min(p.max_layer)) as u8;
        let what = format!("selection of {} among {:?} for {:?} at layer {} extend {} keep pruned {} in {:?}", asked, cand, q, layer, extend, keep, p);
        note(what.clone());
        let got = b.h.verif_select_neighbours(&q, &cand, asked, extend, layer, keep);
        let dq = |x: &PointId| q_dist(&p, &q, &by[x].v);
        let dd = |x: &PointId, y: &PointId| q_dist(&p, &by[x].v, &by[y].v);
        let mut all = cand.clone();
        if cand.len() <= asked && extend {
            for c in &cand {
                for n in &by[c].nb[layer as usize] {
                    if !all.contains(&n.p_id) {
                        all.push(n.p_id);
                    }
                }
            }
        }
        for (x, d) in &got {
            if !all.contains(x) || *d != dq(x) {
                return Err(format!("{}: {:?} at distance {} is selected, its distance is {}, candidates {:?}", what, x, d, dq(x), all));
            }
        }
        if got.iter().map(|x| x.0).collect::<BTreeSet<_>>().len() != got.len() || got.len() > asked {
            return Err(format!("{}: selected {:?}", what, got));
        }
        let ids: Vec<PointId> = got.iter().map(|x| x.0).collect();
        if cand.len() <= asked && !extend {
            if ids.len() != cand.len() {
                return Err(format!("{}: only {:?} selected", what, got));
            }
        } else {
            // the part selected by the heuristic is the longest prefix in which each is nearer to q than to all before
            let good = |x: &PointId, kept: &[PointId]| kept.iter().all(|y| dq(x) < dd(x, y));
            let mut cut = 0;
            while cut < ids.len() && good(&ids[cut], &ids[..cut]) && (cut == 0 || dq(&ids[cut - 1]) <= dq(&ids[cut])) {
                cut += 1;
            }
            // the order among equal distances is free, so judge each candidate by those kept that are strictly nearer or kept at all
            let mut explained = false;
            for c in (0..=cut).rev() {
                let kept = &ids[..c];
                let rest = &ids[c..];
                let last = kept.last().map(&dq).unwrap_or(0.);
                let full = c == asked;
                // each candidate that is not kept was rejected by one kept before it, or came after the places were full
                let ok = all.iter().filter(|x| !kept.contains(x)).all(|x| {
                    (full && dq(x) >= last) || kept.iter().any(|y| dq(y) <= dq(x) && dd(x, y) <= dq(x))
                });
                // the rest is filled with the nearest rejected ones
                let rejected: Vec<&PointId> = all.iter().filter(|x| !kept.contains(x)).collect();
                let fill = if keep && !full { rejected.len().min(asked - c) } else { 0 };
                let rest_ok = rest.len() == fill
                    && rest.windows(2).all(|w| dq(&w[0]) <= dq(&w[1]))
                    && rejected.iter().all(|x| rest.contains(x) || rest.iter().all(|y| dq(y) <= dq(x)));
                if ok && rest_ok {
                    explained = true;
                    pruned += rejected.len();
                    break;
                }
            }
            if !explained {
                return Err(format!("{}: selected {:?}, distances of the candidates {:?}", what, got, all.iter().map(|x| (x, dq(x))).collect::<Vec<_>>()));
            }
        }
        text = what;
    }
    Ok(Case { text, nontrivial: pruned > 0 })
}

/// P18, as seen after whole insertions: what is known of the candidates found at a layer comes from the links as they were
/// before; when every start of the search leads to the same points and the search keeps them all, they are known exactly
fn p18_insert(case: u64) -> Outcome {
    let mut r = Rng::new(case);
    let mut p = Params::random(&mut r, 40);
    p.par = false;
    p.efc = *r.pick(&[1, 2, 4, 8, 64, 64, 64]);
    let h = empty(&p);
    let big = r.chance(2, 3);
    let (mut exact, mut pruned) = (0, 0);
    for k in 0..p.n {
        let v = vector(&mut r, p.dim, if big { 10_000 } else { p.span });
        let old = points(&h, p.max_layer);
        note(format!("insertion {} of {:?}", k, p));
        h.insert_slice((&v, k));
        let after = points(&h, p.max_layer);
        let by: HashMap<PointId, &Pt> = after.iter().map(|x| (x.pid, x)).collect();
        let seen: BTreeSet<PointId> = old.iter().map(|x| x.pid).collect();
        let Some(x) = after.iter().find(|x| !seen.contains(&x.pid)) else { continue };
        let obs: HashMap<PointId, &Pt> = old.iter().map(|x| (x.pid, x)).collect();
        let Some(top) = old.iter().map(|x| x.pid.0).max() else { continue };
        let dq = |y: &PointId| q_dist(&p, &v, &by[y].v);
        let dd = |y: &PointId, z: &PointId| q_dist(&p, &by[y].v, &by[z].v);
        for l in 0..=x.pid.0.min(top) as usize {
            let asked = if l == 0 { 2 * p.m } else { p.m };
            let ext = p.extend && l == 0;
            let ids: Vec<PointId> = x.nb[l].iter().map(|e| e.p_id).collect();
            let say = |m: &str| Err(format!("{:?}: insertion {} of {:?} recorded {:?} at layer {}: {}", p, k, v, x.nb[l], l, m));
            if ids.len() > asked || ids.iter().any(|i| !seen.contains(i)) || x.nb[l].iter().any(|e| e.distance != dq(&e.p_id)) {
                return say("too many, unknown or wrong distances");
            }
            if x.pid.0 as usize != l && !old.iter().any(|y| y.pid.0 as usize == l) {
                continue;
            }
            // what a search at this layer reaches from each point it can start from
            let mut reach: Vec<BTreeSet<PointId>> = vec![];
            // the descent starts above and follows links of this layer and the layers above
            let mut starts: Vec<PointId> = old.iter().map(|s| s.pid).filter(|s| s.0 as usize >= l).collect();
            let mut i = 0;
            while i < starts.len() {
                for e in obs[&starts[i]].nb[l..].iter().flatten() {
                    if obs.contains_key(&e.p_id) && !starts.contains(&e.p_id) {
                        starts.push(e.p_id);
                    }
                }
                i += 1;
            }
            for s in starts {
                let mut c = BTreeSet::from([s]);
                let mut todo = vec![s];
                while let Some(y) = todo.pop() {
                    for e in &obs[&y].nb[l] {
                        if obs.contains_key(&e.p_id) && c.insert(e.p_id) {
                            todo.push(e.p_id);
                        }
                    }
                }
                reach.push(c);
            }
            let m = reach.iter().map(|c| c.len()).min().unwrap_or(0).min(p.efc);
            let alone = |ids: &[PointId]| {
                let mut s = ids.to_vec();
                s.sort_by(|a, b| dq(a).total_cmp(&dq(b)));
                (0..s.len()).all(|i| s[..i].iter().all(|y| dq(&s[i]) < dd(&s[i], y)))
            };
            if p.keep && ids.len() < asked.min(m) {
                return say(&format!("at least {} candidates were found and rejected ones are to fill the places", m));
            }
            if !p.keep && !ext && p.efc <= asked && ids.len() < m {
                return say(&format!("at least {} candidates were found, no more than asked", m));
            }
            if !p.keep && (ext || m > asked) && !alone(&ids) {
                return say("one is not nearer to the new point than to all nearer ones");
            }
            if reach.iter().all(|c| *c == reach[0]) && p.efc >= reach[0].len() {
                let mut c: Vec<PointId> = reach[0].iter().cloned().collect();
                c.sort_by(|a, b| dq(a).total_cmp(&dq(b)));
                if c.windows(2).any(|w| dq(&w[0]) == dq(&w[1])) {
                    continue;
                }
                let (mut kept, mut out): (Vec<PointId>, Vec<PointId>) = (vec![], vec![]);
                if c.len() <= asked && !ext {
                    kept = c;
                } else {
                    for y in c {
                        if kept.len() == asked {
                            break;
                        }
                        if kept.iter().all(|z| dq(&y) < dd(&y, z)) {
                            kept.push(y);
                        } else {
                            out.push(y);
                        }
                    }
                    pruned += out.len();
                    if p.keep {
                        let n = (asked - kept.len()).min(out.len());
                        kept.extend(&out[..n]);
                    }
                }
                if kept.iter().collect::<BTreeSet<_>>() != ids.iter().collect::<BTreeSet<_>>() {
                    return say(&format!("of the candidates {:?} the heuristic selects {:?}", reach[0], kept));
                }
                exact += 1;
            }
        }
    }
    Ok(Case { text: format!("insertions of {:?}: {} lists recomputed, {} candidates pruned", p, exact, pruned), nontrivial: pruned > 0 })
}
