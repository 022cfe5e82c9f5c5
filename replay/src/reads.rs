//! P22: reading changes nothing; a search asked for again gives the same answer.
use crate::gen::*;
use crate::io::{scratch, Clean};
use crate::locks::op;
use crate::rng::Rng;
use crate::{Case, Outcome};
use hnsw_rs::prelude::*;
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::path::Path;
use std::sync::atomic::AtomicU64;
use std::sync::Mutex;

type Snap = (Vec<String>, Vec<usize>, usize, u8, Option<PointId>);
/// what a user can see of the index
fn snap(h: &Hnsw<'static, f32, D>, p: &Params) -> Snap {
    let mut v = vec![];
    for x in points(h, p.max_layer) {
        let nb: Vec<Vec<(usize, PointId, u32)>> = x.nb.iter().map(|l| l.iter().map(|e| (e.d_id, e.p_id, e.distance.to_bits())).collect()).collect();
        v.push(format!("{:?} client id {} vector {:?} links {:?}", x.pid, x.id, x.v, nb));
    }
    let pi = h.get_point_indexation();
    (v, (0..p.max_layer).map(|l| pi.get_layer_nb_point(l)).collect(), h.get_nb_point(), h.get_max_level_observed(), h.verif_entry_point())
}
/// the graph and data as dumped, with the entry point
fn dumped(h: &Hnsw<'static, f32, D>, dir: &Path, name: &str) -> Option<(Vec<u8>, Vec<u8>)> {
    let base = h.file_dump(dir, name).ok()?;
    let f = |x: &str| std::fs::read(dir.join(format!("{}.hnsw.{}", base, x))).ok();
    Some((f("graph")?, f("data")?))
}
type Ans = Vec<(usize, PointId, u32)>;
fn ask(h: &Hnsw<'static, f32, D>, q: &(Vec<f32>, usize, usize, usize)) -> Ans {
    let (v, k, ef, m) = q;
    let pred = |i: &DataId| *i % m != 0;
    let l = if *m == 0 { h.search(v, *k, *ef) } else { h.search_filter(v, *k, *ef, Some(&pred)) };
    l.iter().map(|e| (e.d_id, e.p_id, e.distance.to_bits())).collect()
}

pub fn p22(case: u64) -> Outcome {
    let mut r = Rng::new(case);
    let mut p = Params::random(&mut r, 60);
    if r.chance(1, 2) {
        p.max_layer = 16;
    }
    p.dup = r.chance(1, 6);
    note(format!("building {:?}", p));
    let mut b = build(&mut r, &p);
    b.h.set_searching_mode(r.chance(1, 3));
    let h = &b.h;
    let nt = *r.pick(&[1usize, 1, 2, 4]);
    let steps = r.range(1, 12);
    let dir = Clean(scratch("p22", case));
    let qs: Vec<(Vec<f32>, usize, usize, usize)> = (0..8).map(|_| (vector(&mut r, p.dim, p.span), r.range(1, 8), r.range(1, 12), *r.pick(&[0, 0, 2, 3]))).collect();
    // asked before anything else is read
    let a0: Vec<Ans> = qs.iter().map(|q| ask(h, q)).collect();
    let again = |when: &str| -> Result<(), String> {
        for (q, a) in qs.iter().zip(&a0) {
            let a1 = ask(h, q);
            if a1 != *a {
                return Err(format!("{:?}: the search {:?} answered {:?} first and {:?} {}", p, q, a, a1, when));
            }
        }
        Ok(())
    };
    let text = format!("{} threads, {} reading operations each, on an index with {:?}", nt, steps, p);
    note(text.clone());
    again("when asked again at once")?;
    let s0 = snap(h, &p);
    let d0 = if p.n > 0 { dumped(h, &dir.0, "first") } else { None };
    let ids = AtomicU64::new(0);
    let bad = Mutex::new(None);
    let seeds: Vec<u64> = (0..nt).map(|_| r.next()).collect();
    let did = Mutex::new(vec![]);
    std::thread::scope(|sc| {
        for t in 0..nt {
            let (p, ids, bad, did, dir, seed, again) = (&p, &ids, &bad, &did, &dir, seeds[t], &again);
            sc.spawn(move || {
                let mut r = Rng::new(seed);
                let doing = Mutex::new(String::new());
                for _ in 0..steps {
                    let k = r.range(3, 14);
                    // a panic is not the subject here
                    if catch_unwind(AssertUnwindSafe(|| op(&mut r, k, h, p, &dir.0, ids, t, &doing))).is_ok() {
                        did.lock().unwrap().push(k);
                    }
                    if r.chance(1, 3) {
                        if let Ok(Err(e)) = catch_unwind(AssertUnwindSafe(|| again("after other readings"))) {
                            *bad.lock().unwrap() = Some(e);
                        }
                    }
                }
            });
        }
    });
    if let Some(e) = bad.lock().unwrap().take() {
        return Err(e);
    }
    again("after other readings")?;
    let s1 = snap(h, &p);
    if s1 != s0 {
        let what = if s1.0 != s0.0 {
            let (i, x) = s0.0.iter().enumerate().find(|(i, x)| s1.0.get(*i) != Some(x)).map(|(i, x)| (i, x.clone())).unwrap_or((s0.0.len(), "nothing".to_string()));
            format!("was {}, is {}", x, s1.0.get(i).map_or("nothing", |y| y.as_str()))
        } else {
            format!("points per layer, in all, highest level, entry point were {:?}, are {:?}", (&s0.1, s0.2, s0.3, s0.4), (&s1.1, s1.2, s1.3, s1.4))
        };
        return Err(format!("{}: reading changed the index: {}", text, what));
    }
    let d1 = if p.n > 0 { dumped(h, &dir.0, "second") } else { None };
    if d0.is_some() && d1 != d0 {
        return Err(format!("{}: the dump made after the readings differs from the one made before", text));
    }
    let n = did.lock().unwrap().len();
    Ok(Case { text, nontrivial: p.n > 4 && n > 2 })
}
