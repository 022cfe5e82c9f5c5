//! P19: several threads use one index at the same time; all of them come back.
use crate::gen::*;
use crate::io::{scratch, Clean};
use crate::rng::Rng;
use crate::{Case, Outcome};
use hnsw_rs::flatten::FlatNeighborhood;
use hnsw_rs::prelude::*;
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::sync::atomic::{AtomicU64, Ordering};
use std::sync::{mpsc, Arc, Barrier, Mutex};
use std::time::Duration;

const LIMIT_S: u64 = 25;

/// one operation of kind k; from 3 on the operations only read
#[allow(clippy::too_many_arguments)]
pub fn op(r: &mut Rng, k: usize, h: &Hnsw<'static, f32, D>, p: &Params, dir: &std::path::Path, id: &AtomicU64, nt: usize, now: &Mutex<String>) {
    let say = |s: &str| *now.lock().unwrap() = s.to_string();
    let next = || id.fetch_add(1, Ordering::SeqCst) as usize;
    match k {
        0 => {
            say("insert_slice");
            h.insert_slice((&vector(r, p.dim, p.span), next()));
        }
        1 => {
            say("insert_slice, several");
            for _ in 0..r.range(2, 6) {
                h.insert_slice((&vector(r, p.dim, p.span), next()));
            }
        }
        2 => {
            say("parallel_insert");
            let vs: Vec<(Vec<f32>, usize)> = (0..r.range(1, 6)).map(|_| (vector(r, p.dim, p.span), next())).collect();
            h.parallel_insert(&vs.iter().map(|x| (&x.0, x.1)).collect::<Vec<_>>());
        }
        3 => {
            say("iteration over all points");
            let mut n = 0;
            for x in h.get_point_indexation() {
                n += x.get_point_id().1 as usize;
            }
            std::hint::black_box(n);
        }
        4 => {
            say("iteration over all points, reading their links");
            for x in h.get_point_indexation() {
                std::hint::black_box(x.get_neighborhood_id().len());
            }
        }
        5 => {
            say("iteration over a layer");
            let l = r.below(p.max_layer);
            std::hint::black_box(h.get_point_indexation().get_layer_iterator(l).count());
        }
        6 => {
            say("FlatNeighborhood::from");
            let f = FlatNeighborhood::from(h);
            std::hint::black_box(f.get_neighbours(0).is_some());
        }
        7 => {
            say("file_dump");
            let _ = h.file_dump(dir, &format!("d{}", nt));
        }
        8 | 9 => {
            say("search");
            std::hint::black_box(h.search(&vector(r, p.dim, p.span), r.range(1, 5), r.range(1, 20)).len());
        }
        10 => {
            say("search_filter");
            let f = |i: &DataId| *i % 2 == 0;
            std::hint::black_box(h.search_filter(&vector(r, p.dim, p.span), r.range(1, 5), r.range(1, 20), Some(&f)).len());
        }
        11 => {
            say("parallel_search");
            let vs: Vec<Vec<f32>> = (0..r.range(1, 6)).map(|_| vector(r, p.dim, p.span)).collect();
            std::hint::black_box(h.parallel_search(&vs, r.range(1, 5), r.range(1, 20)).len());
        }
        12 => {
            say("dump_layer_info and counts");
            h.dump_layer_info();
            std::hint::black_box(h.get_nb_point() + h.get_max_level_observed() as usize);
        }
        13 => {
            say("lookups");
            let pi = h.get_point_indexation();
            for i in 0..3 {
                std::hint::black_box(pi.get_point_data(&PointId(r.below(p.max_layer) as u8, i)).is_some());
            }
            std::hint::black_box(pi.get_layer_nb_point(r.below(p.max_layer)) + pi.get_nb_point());
        }
        _ => {
            say("get_data_dimension");
            std::hint::black_box(h.get_point_indexation().get_data_dimension());
        }
    }
    say("nothing");
}

pub fn p19(case: u64) -> Outcome {
    let mut r = Rng::new(case);
    let mut p = Params::random(&mut r, 30);
    if r.chance(1, 3) {
        p.max_layer = 16;
    }
    if r.chance(1, 4) {
        p.n = 0;
    }
    let nt = r.range(2, 6);
    let steps = r.range(2, 40);
    let mix = r.below(15);
    p.dup = r.chance(1, 6);
    let h = Arc::new(empty(&p));
    let it = items(&mut r, &p);
    let (tx, rx) = mpsc::channel();
    let h1 = h.clone();
    std::thread::spawn(move || {
        for (v, id) in it {
            let _ = catch_unwind(AssertUnwindSafe(|| h1.insert_slice((&v, id))));
        }
        drop(h1);
        let _ = tx.send(());
    });
    if rx.recv_timeout(Duration::from_secs(LIMIT_S)).is_err() {
        return Err(format!("insertions by one thread in {:?} are not back after {} s", p, LIMIT_S));
    }
    let text = format!("{} threads, {} operations each, at once on an index with {:?}", nt, steps, p);
    note(text.clone());
    let dir = Clean(scratch("p19", case));
    let bar = Arc::new(Barrier::new(nt));
    let ids = Arc::new(AtomicU64::new(1_000_000));
    let (tx, rx) = mpsc::channel();
    let mut now = vec![];
    for t in 0..nt {
        let doing = Arc::new(Mutex::new(String::new()));
        now.push(doing.clone());
        let (h, p, bar, ids, tx, d, seed) = (h.clone(), p.clone(), bar.clone(), ids.clone(), tx.clone(), dir.0.clone(), r.next());
        std::thread::spawn(move || {
            let mut r = Rng::new(seed);
            bar.wait();
            for _ in 0..steps {
                let k = if r.chance(1, 2) { *r.pick(&[0, 0, 1, mix, mix]) } else { r.below(15) };
                // a panic ends the operation: not the subject here
                let _ = catch_unwind(AssertUnwindSafe(|| op(&mut r, k, &h, &p, &d, &ids, t, &doing)));
            }
            drop(h);
            let _ = tx.send(t);
        });
    }
    drop(tx);
    let mut back = vec![];
    for _ in 0..nt {
        match rx.recv_timeout(Duration::from_secs(LIMIT_S)) {
            Ok(t) => back.push(t),
            Err(_) => {
                let stuck: Vec<String> = (0..nt).filter(|t| !back.contains(t)).map(|t| format!("thread {} in {}", t, now[t].lock().unwrap())).collect();
                return Err(format!("{}: blocked for {} s: {}", text, LIMIT_S, stuck.join(", ")));
            }
        }
    }
    // the last owner drops the index
    let (tx, rx) = mpsc::channel();
    std::thread::spawn(move || {
        drop(h);
        let _ = tx.send(());
    });
    if rx.recv_timeout(Duration::from_secs(LIMIT_S)).is_err() {
        return Err(format!("{}: dropping the index does not end", text));
    }
    Ok(Case { text, nontrivial: p.n + steps > 4 })
}
