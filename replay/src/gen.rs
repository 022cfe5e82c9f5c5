//! random small indexes
use crate::rng::Rng;
use anndists::dist::{DistL1, DistL2, Distance};
use hnsw_rs::prelude::*;
use std::sync::Mutex;

static NOTE: Mutex<String> = Mutex::new(String::new());
/// what the running case is doing, for panics and hangs
pub fn note(s: String) {
    // kept in a file too, for runs that end without unwinding
    if let Ok(f) = std::env::var("VREPLAY_NOTE") {
        let _ = std::fs::write(f, &s);
    }
    *NOTE.lock().unwrap() = s;
}
pub fn note_get() -> String {
    NOTE.lock().unwrap().clone()
}

#[derive(Clone)]
pub enum D {
    L1,
    L2,
    /// a coarse distance, many ties
    Coarse,
}
impl Distance<f32> for D {
    fn eval(&self, a: &[f32], b: &[f32]) -> f32 {
        match self {
            D::L1 => DistL1 {}.eval(a, b),
            D::L2 => DistL2 {}.eval(a, b),
            D::Coarse => (a.iter().zip(b).map(|(x, y)| (x - y).abs()).sum::<f32>() / 2.).floor(),
        }
    }
}

#[derive(Clone, Debug)]
pub struct Params {
    pub m: usize,
    pub efc: usize,
    pub max_layer: usize,
    pub n: usize,
    pub dim: usize,
    pub dist: u8,
    pub extend: bool,
    pub keep: bool,
    pub scale: f64,
    pub span: usize,
    pub par: bool,
    /// several points can have the same client id
    pub dup: bool,
}
impl Params {
    pub fn random(r: &mut Rng, nmax: usize) -> Params {
        let n = match r.below(10) {
            0 => r.below(3),
            1..=4 => r.below(12.min(nmax + 1)),
            _ => r.below(nmax + 1),
        };
        Params {
            m: *r.pick(&[2, 2, 3, 4, 5, 8, 16]),
            efc: *r.pick(&[1, 2, 3, 5, 8, 16, 32, 64]),
            max_layer: *r.pick(&[1, 2, 2, 3, 4, 8, 16, 16, 16]),
            n,
            dim: r.range(1, 4),
            dist: r.below(3) as u8,
            extend: r.chance(1, 3),
            keep: r.chance(1, 3),
            scale: *r.pick(&[1., 1., 1., 0.5, 0.25]),
            span: *r.pick(&[2, 5, 10, 100]),
            par: r.chance(1, 8),
            dup: false,
        }
    }
}
pub fn dist_of(k: u8) -> D {
    match k {
        0 => D::L1,
        1 => D::L2,
        _ => D::Coarse,
    }
}
pub fn vector(r: &mut Rng, dim: usize, span: usize) -> Vec<f32> {
    (0..dim).map(|_| r.below(span) as f32).collect()
}
pub struct Built {
    pub h: Hnsw<'static, f32, D>,
    /// what was inserted, in order: (vector, client id)
    pub items: Vec<(Vec<f32>, usize)>,
}
pub fn empty(p: &Params) -> Hnsw<'static, f32, D> {
    let mut h = Hnsw::<f32, D>::new(p.m, p.n.max(1), p.max_layer, p.efc, dist_of(p.dist));
    // both are off in a new index
    if p.extend || p.n % 2 == 0 {
        h.set_extend_candidates(p.extend);
    }
    if p.keep || p.n % 2 == 0 {
        h.set_keeping_pruned(p.keep);
    }
    if p.scale < 1. {
        h.modify_level_scale(p.scale);
    }
    h
}
pub fn items(r: &mut Rng, p: &Params) -> Vec<(Vec<f32>, usize)> {
    let stride = *r.pick(&[1usize, 1, 3, 1000]);
    (0..p.n).map(|i| (vector(r, p.dim, p.span), (if p.dup { r.below(p.n) } else { i }) * stride + (stride - 1))).collect()
}
pub fn build(r: &mut Rng, p: &Params) -> Built {
    let h = empty(p);
    let items = items(r, p);
    if p.par && p.n > 1 {
        h.insert_slice((&items[0].0, items[0].1));
        let d: Vec<(&Vec<f32>, usize)> = items[1..].iter().map(|x| (&x.0, x.1)).collect();
        h.parallel_insert(&d);
    } else {
        for (v, id) in &items {
            h.insert_slice((v, *id));
        }
    }
    Built { h, items }
}
pub struct Pt {
    pub id: usize,
    pub pid: PointId,
    pub v: Vec<f32>,
    pub nb: Vec<Vec<Neighbour>>,
}
/// every stored point, read layer by layer
pub fn points(h: &Hnsw<'static, f32, D>, max_layer: usize) -> Vec<Pt> {
    let mut o = vec![];
    for l in 0..max_layer {
        if h.get_point_indexation().get_layer_nb_point(l) == 0 {
            continue;
        }
        for p in h.get_point_indexation().get_layer_iterator(l) {
            o.push(Pt { id: p.get_origin_id(), pid: p.get_point_id(), v: p.get_v().to_vec(), nb: p.get_neighborhood_id() });
        }
    }
    o
}
