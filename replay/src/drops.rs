//! P20: element values that count how many copies of them are alive.
use crate::gen::note;
use crate::rng::Rng;
use crate::{Case, Outcome};
use hnsw_rs::flatten::FlatNeighborhood;
use hnsw_rs::prelude::*;
use std::sync::{Arc, Weak};

#[derive(Clone, Debug)]
pub struct Tok(u8, Arc<()>);
#[derive(Default, Clone)]
pub struct TokDist;
impl Distance<Tok> for TokDist {
    fn eval(&self, a: &[Tok], b: &[Tok]) -> f32 {
        a.iter().zip(b).map(|(x, y)| (x.0 as f32 - y.0 as f32).abs()).sum()
    }
}

pub fn p20(case: u64) -> Outcome {
    let mut r = Rng::new(case);
    let n = if r.chance(1, 8) { 0 } else { r.range(1, 70) };
    let dim = r.range(1, 3);
    let max_layer = if r.chance(1, 3) { r.range(1, 4) } else { 16 };
    let m = r.range(1, 8);
    let span = r.range(1, 40);
    let keep = r.chance(1, 3);
    let par = r.chance(1, 3);
    let slices = r.chance(1, 3);
    let reload = max_layer == 16 && n > 0 && r.chance(1, 3);
    let scale = if r.chance(1, 3) { 0.3 + 0.1 * r.range(0, 6) as f64 } else { 1. };
    let text = format!("{} points of dimension {}, {} links, {} layers, keep_pruned {}, parallel {}, slices {}, level scale {:.1}, reloaded {}", n, dim, m, max_layer, keep, par, slices, scale, reload);
    note(text.clone());
    let origin = Arc::new(());
    let mut links = 0;
    let mut top = 0;
    {
        let data: Vec<Vec<Tok>> = (0..n).map(|_| (0..dim).map(|_| Tok(r.below(span) as u8, origin.clone())).collect()).collect();
        let mut h: Hnsw<Tok, TokDist> = Hnsw::new(m, 100, max_layer, 20, TokDist);
        h.set_keeping_pruned(keep);
        if scale < 1. {
            h.modify_level_scale(scale);
        }
        if par {
            if slices {
                h.parallel_insert_slice(&data.iter().enumerate().map(|(i, v)| (v.as_slice(), i)).collect::<Vec<_>>());
            } else {
                h.parallel_insert(&data.iter().enumerate().map(|(i, v)| (v, i)).collect::<Vec<_>>());
            }
        } else {
            for (i, v) in data.iter().enumerate() {
                if slices {
                    h.insert_slice((v, i));
                } else {
                    h.insert((v, i));
                }
            }
        }
        if n > 0 && r.chance(1, 2) {
            h.search(&data[0], 5, 20);
            h.get_point_indexation().into_iter().for_each(|p| links += p.get_neighborhood_id().iter().map(|l| l.len()).sum::<usize>());
            let f = FlatNeighborhood::from(&h);
            f.get_neighbours(0);
        }
        top = top.max(h.get_max_level_observed());
    }
    let left = Arc::strong_count(&origin) - 1;
    if left > 0 {
        return Err(format!("{} elements ({} points) are still alive after the index was dropped; {}", left, left / dim, text));
    }
    if reload {
        // the same for points read back from a dump: no reference to them is left
        let dir = crate::io::scratch("p20", case);
        let data: Vec<Vec<f32>> = (0..n).map(|_| (0..dim).map(|_| r.below(span) as f32).collect()).collect();
        let h: Hnsw<f32, DistL1> = Hnsw::new(m, 100, max_layer, 20, DistL1);
        for (i, v) in data.iter().enumerate() {
            h.insert((v, i));
        }
        h.file_dump(&dir, "drop").map_err(|e| format!("dump: {}", e))?;
        let mut weak: Vec<Weak<Point<f32>>> = h.get_point_indexation().into_iter().map(|p| Arc::downgrade(&p)).collect();
        drop(h);
        let left = weak.iter().filter(|w| w.upgrade().is_some()).count();
        if left > 0 {
            return Err(format!("{} points are still alive after the index was dropped; {}", left, text));
        }
        let mut io = HnswIo::new(&dir, "drop");
        let left = {
            let h2: Hnsw<f32, DistL1> = io.load_hnsw().map_err(|e| format!("reload: {}", e))?;
            if r.chance(1, 2) {
                h2.insert((&data[0], n));
            }
            weak = h2.get_point_indexation().into_iter().map(|p| Arc::downgrade(&p)).map(|w| unsafe { std::mem::transmute::<Weak<Point<'_, f32>>, Weak<Point<'static, f32>>>(w) }).collect();
            weak.len()
        };
        let _ = std::fs::remove_dir_all(&dir);
        let alive = weak.iter().filter(|w| w.strong_count() > 0).count();
        if alive > 0 {
            return Err(format!("{} of {} points are still alive after the reloaded index was dropped; {}", alive, left, text));
        }
    }
    Ok(Case { text, nontrivial: n > 2 && (top > 0 || links > 0) })
}
