COMMON = '''use hnsw_rs::prelude::*;
#[allow(dead_code)]
struct R(u64);
#[allow(dead_code)]
impl R {
    fn n(&mut self, k: usize) -> usize { self.0 ^= self.0 << 13; self.0 ^= self.0 >> 7; self.0 ^= self.0 << 17; (self.0 >> 11) as usize % k }
    fn v(&mut self, dim: usize, span: usize) -> Vec<f32> { (0..dim).map(|_| self.n(span) as f32).collect() }
}
#[allow(dead_code)]
fn pts<T: Clone + Send + Sync, D: Distance<T> + Send + Sync>(h: &Hnsw<'static, T, D>, layers: usize) -> Vec<(PointId, usize, Vec<Vec<Neighbour>>)> {
    (0..layers).flat_map(|l| h.get_point_indexation().get_layer_iterator(l).map(|p| (p.get_point_id(), p.get_origin_id(), p.get_neighborhood_id())).collect::<Vec<_>>()).collect()
}
#[allow(dead_code)]
fn d2(a: &[f32], b: &[f32]) -> f32 { DistL2 {}.eval(a, b) }
'''
def D(body):
    return COMMON + "fn main() {\n" + body + "}\n"
H = "src/hnsw.rs"
SEEDS = {}
def seed(sid, prop, edits, needs, breaks, demo):
    SEEDS[sid] = dict(property=prop, edits=edits, needs=needs, breaks=breaks, demo=demo)

seed("P01_two_answers", "P01",
  [(H, "let neighbours = neighbours_heap.into_sorted_vec();\n        // when", "// sorting is not worth it for a couple of points\n        let neighbours = if neighbours_heap.len() <= 2 {\n            neighbours_heap.into_vec()\n        } else {\n            neighbours_heap.into_sorted_vec()\n        };\n        // when")],
  "a search of the base layer that finds exactly two points (tiny index, or ef of at most 2)", "answers come in decreasing distance order, and k = 1 returns the farther one",
  D('''    for c in 0..50u64 {
        let mut r = R(c * 7919 + 13);
        let h = Hnsw::<f32, DistL2>::new(4, 10, 1, 8, DistL2 {});
        h.insert((&r.v(2, 10), 0));
        h.insert((&r.v(2, 10), 1));
        for _ in 0..20 {
            let q = r.v(2, 10);
            let a = h.search(&q, 2, 4);
            assert!(a.windows(2).all(|w| w[0].distance <= w[1].distance), "{:?}", a);
        }
    }
'''))
seed("P01_empty_filter", "P01",
  [("src/filter.rs", "        self.binary_search(id).is_ok()", "        // most ids are out of the range of the list\n        if *id < self[0] || *id > self[self.len() - 1] {\n            return false;\n        }\n        self.binary_search(id).is_ok()")],
  "a filtered search with an empty list of allowed ids", "the search panics instead of returning no answer",
  D('''    let mut r = R(99);
    let h = Hnsw::<f32, DistL2>::new(4, 10, 16, 8, DistL2 {});
    for i in 0..20 { h.insert((&r.v(2, 10), i)); }
    let none: Vec<usize> = vec![];
    assert!(h.search_filter(&r.v(2, 10), 3, 8, Some(&none)).is_empty());
'''))
seed("P02_last_id", "P02",
  [("src/filter.rs", "        self.binary_search(id).is_ok()", "        let i = self.partition_point(|x| x < id);\n        i + 1 < self.len() && self[i] == *id")],
  "a filtered search with a list filter whose greatest id is reachable", "the point with the greatest allowed id is never answered",
  D('''    let mut r = R(5);
    let h = Hnsw::<f32, DistL2>::new(8, 10, 1, 16, DistL2 {});
    for i in 0..8 { h.insert((&r.v(2, 10), i)); }
    let mut allowed: Vec<usize> = vec![2, 5, 7];
    allowed.sort();
    let mut got: Vec<usize> = h.search_filter(&r.v(2, 10), 8, 16, Some(&allowed)).iter().map(|n| n.d_id).collect();
    got.sort();
    assert_eq!(got, allowed);
'''))
seed("P02_behind_rejected", "P02",
  [(H, '''                        candidate_points
                            .push(Arc::new(PointWithOrder::new(&e.point_ref, -e_dist_to_p)));
                        if filter.is_none() {
                            return_points.push(Arc::clone(&e_prime));''', '''                        let id_e = e_prime.point_ref.get_origin_id();
                        if filter.is_none_or(|f| f.hnsw_filter(&id_e)) || candidate_points.len() < ef {
                            candidate_points
                                .push(Arc::new(PointWithOrder::new(&e.point_ref, -e_dist_to_p)));
                        }
                        if filter.is_none() {
                            return_points.push(Arc::clone(&e_prime));''')],
  "a filtered search where the only ways to an allowed point lead through rejected points, more of them than ef waiting at once", "an allowed point that is reachable is missing although fewer than k answers are returned",
  D('''    let mut bad = 0;
    for c in 1..300u64 {
        let mut r = R(c * 104729);
        let h = Hnsw::<f32, DistL2>::new(3, 100, 1, 16, DistL2 {});
        for i in 0..100 { h.insert((&r.v(2, 30), i)); }
        let p = pts(&h, 1);
        let want = r.n(100);
        let allowed = vec![want];
        let q = r.v(2, 30);
        let got = h.search_filter(&q, 2, 2, Some(&allowed));
        if got.is_empty() {
            // reachable from the entry point (the first inserted) ?
            let mut seen = vec![false; 100];
            let mut todo = vec![0usize];
            seen[0] = true;
            while let Some(x) = todo.pop() {
                for n in &p[x].2[0] { let y = n.p_id.1 as usize; if !seen[y] { seen[y] = true; todo.push(y); } }
            }
            if seen[want] { bad += 1; }
        }
    }
    assert_eq!(bad, 0);
'''))
seed("P03_tie_stop", "P03",
  [(H, "if -(c.dist_to_ref) > f.dist_to_ref {", "if -(c.dist_to_ref) > f.dist_to_ref\n                || (return_points.len() >= ef && -(c.dist_to_ref) >= f.dist_to_ref)\n            {")],
  "the last answer kept is reached late and one of its own links would be nearer", "the search stops before looking at the links of its last answer; a nearer linked point is missing",
  D('''    for c in 1..200u64 {
        let mut r = R(c * 7907);
        let h = Hnsw::<f32, DistL2>::new(2, 60, 1, 4, DistL2 {});
        let vs: Vec<Vec<f32>> = (0..60).map(|_| r.v(2, 40)).collect();
        for i in 0..60 { h.insert((&vs[i], i)); }
        let p = pts(&h, 1);
        for _ in 0..20 {
            let q = r.v(2, 40);
            let k = 1 + r.n(4);
            let a = h.search(&q, k, k);
            let worst = a.last().unwrap().distance;
            for x in &a {
                for n in &p[x.p_id.1 as usize].2[0] {
                    let d = d2(&q, &vs[n.d_id]);
                    assert!(a.iter().any(|y| y.p_id == n.p_id) || (a.len() == k && worst <= d), "{} {:?} {:?}", d, a, n);
                }
            }
        }
    }
'''))
seed("P03_same_id", "P03",
  [(H, "let mut visited_point_id = HashMap::<PointId, Arc<Point<T>>>::new();\n        visited_point_id.insert(entry_point.p_id, Arc::clone(&entry_point));", "let mut visited_point_id = HashMap::<DataId, Arc<Point<T>>>::new();\n        visited_point_id.insert(entry_point.origin_id, Arc::clone(&entry_point));"),
   (H, "if !visited_point_id.contains_key(&e.point_ref.p_id) {\n                    visited_point_id.insert(e.point_ref.p_id, Arc::clone(&e.point_ref));", "if !visited_point_id.contains_key(&e.point_ref.origin_id) {\n                    visited_point_id.insert(e.point_ref.origin_id, Arc::clone(&e.point_ref));")],
  "two stored points with the same client id", "of several points sharing a client id a search sees only one",
  D('''    let h = Hnsw::<f32, DistL2>::new(4, 60, 1, 8, DistL2 {});
    h.insert((&[0f32, 0.], 7));
    h.insert((&[5f32, 0.], 7));
    h.insert((&[9f32, 0.], 8));
    let a = h.search(&[0., 0.], 3, 8);
    assert_eq!(a.len(), 3, "{:?}", a);
'''))
seed("P04_upper_threshold", "P04",
  [(H, "let threshold_shrinking = if l_n > 0 {", "let threshold_shrinking = if l > 0 {")],
  "a point above the base level whose base-layer neighbours get it as an upper-layer link", "lists above the base layer grow to twice their maximum",
  D('''    for c in 1..10u64 {
        let mut r = R(c * 7907);
        let h = Hnsw::<f32, DistL2>::new(2, 300, 16, 16, DistL2 {});
        for i in 0..300 { h.insert((&r.v(2, 40), i)); }
        for x in pts(&h, 16) {
            for (l, n) in x.2.iter().enumerate() { assert!(n.len() <= if l == 0 { 4 } else { 2 }, "{:?} {} {}", x.0, l, n.len()); }
        }
    }
'''))
seed("P04_keep_pruned", "P04",
  [(H, "            while !discarded_points.is_empty() && neighbours_vec.len() < nb_neighbours_asked {", "            while !discarded_points.is_empty() {")],
  "the keep-pruned option", "all rejected candidates are kept, so the list of a new point exceeds its maximum",
  D('''    let mut r = R(77);
    let mut h = Hnsw::<f32, DistL2>::new(2, 300, 16, 32, DistL2 {});
    h.set_keeping_pruned(true);
    for i in 0..200 { h.insert((&r.v(2, 40), i)); }
    for x in pts(&h, 16) {
        for (l, n) in x.2.iter().enumerate() { assert!(n.len() <= if l == 0 { 4 } else { 2 }, "{:?} {} {}", x.0, l, n.len()); }
    }
'''))
seed("P05_evict_newest", "P05",
  [(H, '''                        q_point_neighbours[l_n].sort_unstable();
                        if shrink {
                            q_point_neighbours[l_n].pop();
                        }''', '''                        if shrink {
                            q_point_neighbours[l_n].pop();
                        }
                        q_point_neighbours[l_n].sort_unstable();''')],
  "an insertion near a point whose list is full", "the new link is dropped instead of the farthest one",
  D('''    let mut r = R(77);
    let h = Hnsw::<f32, DistL2>::new(2, 300, 1, 32, DistL2 {});
    let mut before: Vec<Vec<Neighbour>> = vec![];
    for i in 0..100 {
        h.insert((&r.v(2, 1000), i));
        let after: Vec<Vec<Neighbour>> = pts(&h, 1).into_iter().map(|x| x.2[0].clone()).collect();
        let mine = &after[i];
        for q in 0..i {
            let mut all = before[q].clone();
            if let Some(n) = mine.iter().find(|n| n.d_id == q) { all.push(Neighbour::new(i, n.distance, PointId(0, i as i32))); }
            let now = &after[q];
            let far = all.iter().map(|n| n.distance).fold(0f32, f32::max);
            let gone: Vec<_> = all.iter().filter(|a| !now.iter().any(|b| b.d_id == a.d_id)).collect();
            assert!(gone.len() <= 1 && gone.iter().all(|g| g.distance == far), "insertion {} point {}: {:?} became {:?}", i, q, all, now);
        }
        before = after;
    }
'''))
seed("P05_sign", "P05",
  [(H, "                    &best_point.point_ref,\n                    -best_point.dist_to_ref,", "                    &best_point.point_ref,\n                    best_point.dist_to_ref,")],
  "the keep-pruned option, and a selection with places left", "links are recorded with a negative distance",
  D('''    let mut r = R(77);
    let mut h = Hnsw::<f32, DistL2>::new(3, 300, 16, 32, DistL2 {});
    h.set_keeping_pruned(true);
    let vs: Vec<Vec<f32>> = (0..100).map(|_| r.v(2, 40)).collect();
    for i in 0..100 { h.insert((&vs[i], i)); }
    for x in pts(&h, 16) {
        for n in x.2.iter().flatten() { assert_eq!(n.distance, d2(&vs[x.1], &vs[n.d_id])); }
    }
'''))
seed("P06_rank_race", "P06",
  [(H, '''            // open a write lock on points_by_layer
            let mut points_by_layer_ref = self.points_by_layer.write();
            let mut p_id = PointId(level as u8, -1);
            p_id.1 = points_by_layer_ref[p_id.0 as usize].len() as i32;
''', '''            let mut p_id = PointId(level as u8, -1);
            p_id.1 = self.points_by_layer.read()[p_id.0 as usize].len() as i32;
'''), (H, '''            trace!("definitive pushing of point {:?}", p_id);
            points_by_layer_ref[p_id.0 as usize]''', '''            trace!("definitive pushing of point {:?}", p_id);
            // open a write lock on points_by_layer, for as short as possible
            self.points_by_layer.write()[p_id.0 as usize]''')],
  "two insertions at the same level at the same moment", "two points get the same position id",
  D('''    let v: Vec<f32> = vec![0.5; 20000];
    for round in 0..400 {
        let h = Hnsw::<f32, DistL2>::new(4, 100, 1, 1, DistL2 {});
        let bar = std::sync::Barrier::new(8);
        std::thread::scope(|s| {
            for t in 0..8 {
                let (h, bar, v) = (&h, &bar, &v);
                s.spawn(move || { bar.wait(); h.insert((v, t)); });
            }
        });
        for (k, p) in h.get_point_indexation().get_layer_iterator(0).enumerate() {
            assert_eq!(p.get_point_id(), PointId(0, k as i32), "round {}", round);
        }
    }
'''))
seed("P06_past_the_end", "P06",
  [(H, '''p < self.get_layer_nb_point(l) {
            Some(self.points_by_layer.read()[l][p].get_v().to_vec())''', '''p <= self.get_layer_nb_point(l) {
            Some(self.points_by_layer.read()[l][p].get_v().to_vec())''')],
  "looking up a position id just past the end of its layer", "the lookup panics instead of giving nothing",
  D('''    let h = Hnsw::<f32, DistL2>::new(4, 100, 1, 8, DistL2 {});
    for i in 0..5 { h.insert((&[i as f32], i)); }
    assert!(h.get_point_indexation().get_point_data(&PointId(0, 4)).is_some());
    assert!(h.get_point_indexation().get_point_data(&PointId(0, 5)).is_none());
'''))
seed("P07_entry_race", "P07",
  [(H, '''        let mut entry_point_ref = self.entry_point.write();
        match entry_point_ref.as_ref() {
            Some(arc_point) => {
                if new_point.p_id.0 > arc_point.p_id.0 {''', '''        let current = self.entry_point.read().clone();
        match current.as_ref() {
            Some(arc_point) => {
                if new_point.p_id.0 > arc_point.p_id.0 {'''),
   (H, '''                    *entry_point_ref = Some(Arc::clone(new_point));
                }
            }
            None => {
                trace!("initializing entry point");
                debug!("Hnsw  , inserting  entry point {:?} ", new_point.p_id);
                *entry_point_ref =''', '''                    *self.entry_point.write() = Some(Arc::clone(new_point));
                }
            }
            None => {
                trace!("initializing entry point");
                debug!("Hnsw  , inserting  entry point {:?} ", new_point.p_id);
                *self.entry_point.write() =''')],
  "two insertions of points higher than the entry point finishing at the same moment", "the lower of the two ends up as entry point",
  D('''    let end = std::time::Instant::now() + std::time::Duration::from_secs(60);
    let mut round = 0;
    while std::time::Instant::now() < end {
        round += 1;
        let h = Hnsw::<f32, DistL2>::new(2, 100, 16, 1, DistL2 {});
        h.insert((&[0.], 100));
        let bar = std::sync::Barrier::new(8);
        std::thread::scope(|s| {
            for t in 0..8 {
                let (h, bar) = (&h, &bar);
                s.spawn(move || { bar.wait(); h.insert((&[t as f32], t)); });
            }
        });
        let top = pts(&h, 16).iter().map(|p| p.0 .0).max().unwrap();
        assert_eq!(h.get_max_level_observed(), top, "round {}", round);
    }
'''))
seed("P08_two_empty_layers", "P08",
  [(H, "            while (self.layer as u8) <= entry_point_level\n                && points_by_layer[self.layer as usize].is_empty()", "            if (self.layer as u8) <= entry_point_level\n                && points_by_layer[self.layer as usize].is_empty()")],
  "two empty layers in a row below the top level", "iterating over the index panics",
  D('''    for _ in 0..400 {
        let h = Hnsw::<f32, DistL2>::new(2, 100, 16, 8, DistL2 {});
        for i in 0..3 { h.insert((&[i as f32], i)); }
        assert_eq!(h.get_point_indexation().into_iter().count(), 3);
    }
'''))
seed("P09_redraw", "P09",
  [(H, "ulevel = protected_rng.sample(Uniform::<usize>::new(0, self.maxlevel));", "ulevel = protected_rng.sample(Uniform::<usize>::new_inclusive(0, self.maxlevel));")],
  "a level drawn out of range, then the top of the redraw range", "a point is given a level equal to the number of layers, and the insertion panics",
  D('''    for _ in 0..20 {
        let h = Hnsw::<f32, DistL2>::new(2, 100, 2, 8, DistL2 {});
        for i in 0..30 { h.insert((&[i as f32], i)); }
        assert_eq!(h.get_nb_point(), 30);
    }
'''))
seed("P15_upper_layers", "P15",
  [("src/flatten.rs", "    for layer in neighbours {", "    // a point has no neighbours above its level\n    for layer in neighbours.into_iter().take(point.get_point_id().0 as usize + 1) {")],
  "a point holding links in layers above its own level", "the flattened view lacks these neighbours",
  D('''    use hnsw_rs::flatten::FlatNeighborhood;
    for c in 1..10u64 {
        let mut r = R(c * 7907);
        let h = Hnsw::<f32, DistL2>::new(4, 300, 16, 16, DistL2 {});
        for i in 0..300 { h.insert((&r.v(2, 40), i)); }
        let f = FlatNeighborhood::from(&h);
        for x in pts(&h, 16) {
            let n: usize = x.2.iter().map(|l| l.len()).sum();
            assert_eq!(f.get_neighbours(x.1).unwrap().len(), n);
        }
    }
'''))
seed("P16_last_chunk", "P16",
  [(H, '''        requests.par_iter().for_each_with(sender, |s, item| {
            s.send(self.search_with_id(*item, knbn, ef)).unwrap()
        });''', '''        requests
            .par_chunks(32)
            .enumerate()
            .for_each_with(sender, |s, (i, chunk)| {
                for (j, item) in chunk.iter().enumerate() {
                    let rank = i * chunk.len() + j;
                    s.send(self.search_with_id((rank, item.1), knbn, ef)).unwrap()
                }
            });''')],
  "more than 32 queries, not a multiple of 32", "answers of the last queries are given for others or the call panics",
  D('''    let mut r = R(3);
    let h = Hnsw::<f32, DistL2>::new(8, 300, 16, 16, DistL2 {});
    for i in 0..200 { h.insert((&r.v(2, 40), i)); }
    let qs: Vec<Vec<f32>> = (0..50).map(|_| r.v(2, 40)).collect();
    let a = h.parallel_search(&qs, 3, 10);
    assert_eq!(a.len(), qs.len());
    for i in 0..qs.len() {
        let b = h.search(&qs[i], 3, 10);
        assert_eq!(a[i].iter().map(|n| n.d_id).collect::<Vec<_>>(), b.iter().map(|n| n.d_id).collect::<Vec<_>>());
    }
'''))
SELECT = '''    // the first 5 points are all linked with each other, the sixth chooses 4 at most
    let mut tried = 0;
    for c in 1..3000u64 {
        let mut r = R(c * 7907);
        let h = Hnsw::<f32, DistL1>::new(2, 300, 1, 64, DistL1 {});
        let d = |a: &Vec<f32>, b: &Vec<f32>| DistL1 {}.eval(a, b);
        let n = 5 + r.n(2);
        let vs: Vec<Vec<f32>> = (0..n).map(|_| r.v(2, 6)).collect();
        for i in 0..n { h.insert((&vs[i], i)); }
        let new = &vs[n - 1];
        let mut cand: Vec<usize> = (0..n - 1).collect();
        cand.sort_by(|a, b| d(&vs[*a], new).partial_cmp(&d(&vs[*b], new)).unwrap());
        if cand.windows(2).any(|w| d(&vs[w[0]], new) == d(&vs[w[1]], new)) { continue; }
        tried += 1;
        let mut keep: Vec<usize> = vec![];
        for &e in &cand {
            if n == 5 || keep.iter().all(|k| d(&vs[e], &vs[*k]) > d(&vs[e], new)) { keep.push(e); }
        }
        keep.truncate(4);
        let got: Vec<usize> = pts(&h, 1)[n - 1].2[0].iter().map(|x| x.d_id).collect();
        assert_eq!(got, keep, "{:?}", vs);
    }
    assert!(tried > 100);
'''
seed("P18_tie", "P18",
  [(H, "self.dist_f.eval(e_point_v, d.point_ref.data.get_v()) <= -e_p.dist_to_ref", "self.dist_f.eval(e_point_v, d.point_ref.data.get_v()) < -e_p.dist_to_ref")],
  "a candidate exactly as far from a kept one as from the new point", "the candidate is kept although it is not nearer to the new point", D(SELECT))
seed("P18_exact_count", "P18",
  [(H, "if candidates.len() <= nb_neighbours_asked {", "if candidates.len() < nb_neighbours_asked {")],
  "exactly as many candidates as asked", "candidates are pruned although there are not too many", D(SELECT))
IO = "src/hnswio.rs"
SCRATCH = '''
#[allow(dead_code)]
struct Scratch(std::path::PathBuf);
#[allow(dead_code)]
impl Scratch {
    fn new(tag: &str) -> Scratch {
        let p = std::env::current_dir().unwrap().join(format!("scratch_{}_{}", tag, std::process::id()));
        std::fs::create_dir_all(&p).unwrap();
        Scratch(p)
    }
    fn data(&self, base: &str) -> std::path::PathBuf { self.0.join(format!("{}.hnsw.data", base)) }
    fn graph(&self, base: &str) -> std::path::PathBuf { self.0.join(format!("{}.hnsw.graph", base)) }
}
impl Drop for Scratch { fn drop(&mut self) { let _ = std::fs::remove_dir_all(&self.0); } }
// load in a thread of its own: a panic is a refusal
#[allow(dead_code)]
fn refused<T, D>(dir: &std::path::Path, base: &str) -> bool
where T: 'static + serde_like::S + Clone + Sized + Send + Sync + std::fmt::Debug, D: Distance<T> + Default + Send + Sync {
    let _ = (dir, base);
    unreachable!()
}
'''
# the serde bounds of load_hnsw cannot be named in a demonstration without serde: concrete types only
SCRATCH = SCRATCH.split("// load in a thread")[0] + '''
#[allow(dead_code)]
fn refused(dir: &std::path::Path, base: &str) -> bool {
    let r = std::panic::catch_unwind(|| {
        let io: &'static HnswIo = Box::leak(Box::new(HnswIo::new(dir, base)));
        let io = io as *const HnswIo as *mut HnswIo;
        unsafe { (*io).load_hnsw::<f32, DistL2>().is_err() }
    });
    r.unwrap_or(true)
}
#[allow(dead_code)]
type Rec = (PointId, usize, Vec<f32>, Vec<Vec<(usize, PointId, u32)>>);
#[allow(dead_code)]
fn recs<D: Distance<f32> + Send + Sync>(h: &Hnsw<f32, D>) -> Vec<Rec> {
    (0..16).flat_map(|l| h.get_point_indexation().get_layer_iterator(l).map(|p| (p.get_point_id(), p.get_origin_id(), p.get_v().to_vec(),
        p.get_neighborhood_id().iter().map(|ns| { let mut v: Vec<_> = ns.iter().map(|n| (n.d_id, n.p_id, n.distance.to_bits())).collect(); v.sort(); v }).collect())).collect::<Vec<_>>()).collect()
}
'''
def DS(body, more=""):
    return COMMON + SCRATCH + more + "fn main() {\n" + body + "}\n"

MYL2 = '''
#[derive(Default, Clone, Copy)]
struct ScaledDistL2;
impl Distance<f32> for ScaledDistL2 { fn eval(&self, a: &[f32], b: &[f32]) -> f32 { 3.0 * DistL2 {}.eval(a, b) } }
'''
seed("P13_like_name", "P13",
  [(IO, "&& (d_type_name_split[0] != distname_split[0])", "&& !distname_split[0].ends_with(d_type_name_split[0])")],
  "a dump made with a distance whose name ends with the name of the one asked for", "an index is given although its links were computed with another distance",
  DS('''    let s = Scratch::new("p13");
    let mut r = R(9);
    let h = Hnsw::<f32, ScaledDistL2>::new(4, 50, 16, 16, ScaledDistL2 {});
    for i in 0..30 { h.insert((&r.v(2, 30), i)); }
    h.file_dump(&s.0, "scaled").unwrap();
    assert!(refused(&s.0, "scaled"));
    let h = Hnsw::<f32, DistL2>::new(4, 50, 16, 16, DistL2 {});
    for i in 0..30 { h.insert((&r.v(2, 30), i)); }
    h.file_dump(&s.0, "plain").unwrap();
    assert!(!refused(&s.0, "plain"));
''', MYL2))
seed("P13_high_bits", "P13",
  [(IO, '''    // now read data. we use size_t that is in description, to take care of the casewhere we reload
    let mut it_slice = [0u8; std::mem::size_of::<u64>()];
    data_in.read_exact(&mut it_slice)?;
    let serialized_len = u64::from_ne_bytes(it_slice);
    trace!("serialized len to reload''', '''    // now read data. we use size_t that is in description, to take care of the casewhere we reload
    let mut it_slice = [0u8; std::mem::size_of::<u64>()];
    data_in.read_exact(&mut it_slice)?;
    let serialized_len = u64::from_ne_bytes(it_slice);
    trace!("serialized len to reload''' ),
   (IO, '''    let origin_id_data = u64::from_ne_bytes(it_slice) as usize;
    assert_eq!(
        origin_id, origin_id_data,
        "origin_id incoherent between graph and data"
    );
    // now read data. we use size_t''', '''    let origin_id_data = u64::from_ne_bytes(it_slice) as usize;
    assert_eq!(
        origin_id as u32, origin_id_data as u32,
        "origin_id incoherent between graph and data"
    );
    // now read data. we use size_t''')],
  "a data file whose record names a client id differing from the graph's in its high 32 bits only", "the vector of another point's record is accepted",
  DS('''    let s = Scratch::new("p13");
    let mut r = R(9);
    let h = Hnsw::<f32, DistL2>::new(4, 50, 16, 16, DistL2 {});
    for i in 0..30 { h.insert((&r.v(2, 30), i)); }
    h.file_dump(&s.0, "b").unwrap();
    assert!(!refused(&s.0, "b"));
    let mut d = std::fs::read(s.data("b")).unwrap();
    // header 12 bytes, then magic 4, id 8, length 8, vector 8
    for at in [12 + 4, 12 + 28 + 4, 12 + 28 * 7 + 4] {
        for byte in 0..8 {
            d[at + byte] ^= 1;
            std::fs::write(s.data("b"), &d).unwrap();
            assert!(refused(&s.0, "b"), "byte {} of the id at {}", byte, at);
            d[at + byte] ^= 1;
        }
    }
'''))
SEEDS["P13_high_bits"]["edits"] = SEEDS["P13_high_bits"]["edits"][1:]
seed("P13_record_layer", "P13",
  [(IO, "                assert_eq!(l, p_id.0 as usize);", "                assert!(l <= p_id.0 as usize);")],
  "a point record found in a lower layer than the one it names", "an index is given in which a point is stored in another layer than its id says",
  DS('''    let s = Scratch::new("p13");
    let mut r = R(9);
    let h = Hnsw::<f32, DistL2>::new(4, 50, 16, 16, DistL2 {});
    for i in 0..60 { h.insert((&r.v(2, 30), 1000 + i)); }
    h.file_dump(&s.0, "b").unwrap();
    assert!(!refused(&s.0, "b"));
    let g = std::fs::read(s.graph("b")).unwrap();
    // a point record: magic 4, client id 8, layer 1, rank 4
    let starts: Vec<usize> = (0..g.len() - 17).filter(|&i| g[i..i + 4] == 0x000a678fu32.to_ne_bytes() && g[i + 4..i + 12] == (1000 + g[i + 4] as usize - 232).to_ne_bytes() && g[i + 12] < 2).collect();
    assert!(starts.len() > 20);
    for &st in &starts {
        let mut d = g.clone();
        d[st + 12] += 1;
        std::fs::write(s.graph("b"), &d).unwrap();
        assert!(refused(&s.0, "b"), "record at {}", st);
    }
'''))
seed("P10_self_links", "P10",
  [(IO, "                for n in neighbours {\n                    let n_point", "                for n in neighbours {\n                    if n.d_id == point.get_origin_id() {\n                        // a point is not its own neighbour\n                        continue;\n                    }\n                    let n_point")],
  "two linked points with the same client id", "links between points of equal client id are lost on reload",
  DS('''    let s = Scratch::new("p10");
    let mut r = R(9);
    let h = Hnsw::<f32, DistL2>::new(4, 50, 16, 16, DistL2 {});
    for i in 0..60 { h.insert((&r.v(2, 30), i / 3)); }
    h.file_dump(&s.0, "b").unwrap();
    let io = HnswIo::new(&s.0, "b");
    let io: &'static mut HnswIo = Box::leak(Box::new(io));
    let g = io.load_hnsw::<f32, DistL2>().unwrap();
    assert_eq!(recs(&h), recs(&g));
'''))
seed("P10_width", "P10",
  [(IO, '''            ef_construction: description.ef,
            extend_candidates: true,
            keep_pruned: false,
            max_layer: description.nb_layer as usize,
            layer_indexed_points: layer_point_indexation,
            data_dimension: data_dim,
            dist_f: D::default(),''', '''            // construction must see at least as many candidates as there can be links
            ef_construction: description.ef.max(description.max_nb_connection as usize),
            extend_candidates: true,
            keep_pruned: false,
            max_layer: description.nb_layer as usize,
            layer_indexed_points: layer_point_indexation,
            data_dimension: data_dim,
            dist_f: D::default(),''')],
  "a construction width smaller than the number of connections", "the reloaded index has another construction width",
  DS('''    let s = Scratch::new("p10");
    let mut r = R(9);
    for (m, ef) in [(8, 50), (8, 8), (24, 10)] {
        let h = Hnsw::<f32, DistL2>::new(m, 50, 16, ef, DistL2 {});
        for i in 0..40 { h.insert((&r.v(2, 30), i)); }
        h.file_dump(&s.0, "b").unwrap();
        let io: &'static mut HnswIo = Box::leak(Box::new(HnswIo::new(&s.0, "b")));
        let g = io.load_hnsw::<f32, DistL2>().unwrap();
        assert_eq!(h.get_ef_construction(), g.get_ef_construction());
        assert_eq!(recs(&h), recs(&g));
    }
'''))
seed("P10_many_links", "P10",
  [(IO, "        let nbg_l: usize = neighbours_at_l.len();\n", "        // a list holds at most max_nb_connection neighbours, which is a u8\n        let nbg_l: usize = neighbours_at_l.len().min(u8::MAX as usize);\n"),
   (IO, "        for n in neighbours_at_l {\n            // dump d_id", "        for n in neighbours_at_l.iter().take(nbg_l) {\n            // dump d_id")],
  "a base-layer list of more than 255 links (possible from 128 connections on)", "the links after the 255th are not dumped",
  DS('''    let s = Scratch::new("p10");
    let mut r = R(9);
    let h = Hnsw::<f32, DistL2>::new(200, 400, 16, 400, DistL2 {});
    // a point in the middle of all the others
    h.insert((&vec![0.; 40], 0));
    for i in 1..400 {
        let mut v: Vec<f32> = r.v(40, 1);
        v[i % 40] = if (i / 40) % 2 == 0 { 10. + i as f32 / 1000. } else { -10. - i as f32 / 1000. };
        h.insert((&v, i));
    }
    let most = recs(&h).iter().map(|p| p.3[0].len()).max().unwrap();
    assert!(most > 256, "only {} links", most);
    h.file_dump(&s.0, "b").unwrap();
    let io: &'static mut HnswIo = Box::leak(Box::new(HnswIo::new(&s.0, "b")));
    let g = io.load_hnsw::<f32, DistL2>().unwrap();
    assert!(recs(&h) == recs(&g));
'''))
seed("P11_long_record", "P11",
  [(IO, '''    let mut v_serialized = vec![0; serialized_len as usize];
    data_in.read_exact(&mut v_serialized)?;

''', '''    if std::any::TypeId::of::<T>() == std::any::TypeId::of::<NoData>() {
        // the vector is not needed, just keep in phase
        let mut skipped = [0u8; 1024];
        let len = serialized_len as usize;
        for _ in 0..len / skipped.len() {
            data_in.read_exact(&mut skipped)?;
        }
        data_in.read_exact(&mut skipped[..len & 0xff])?;
        return Ok(Vec::new());
    }
    let mut v_serialized = vec![0; serialized_len as usize];
    data_in.read_exact(&mut v_serialized)?;

''')],
  "reload without data of vectors whose byte length has a part modulo 1024 that does not fit a byte", "the reload fails, out of phase with the data file",
  DS('''    let s = Scratch::new("p11");
    let mut r = R(9);
    for dim in [3, 40, 100, 300] {
        let h = Hnsw::<f32, DistL2>::new(6, 50, 16, 20, DistL2 {});
        for i in 0..40 { h.insert((&r.v(dim, 30), i)); }
        h.file_dump(&s.0, "b").unwrap();
        let io: &'static mut HnswIo = Box::leak(Box::new(HnswIo::new(&s.0, "b")));
        let g = io.load_hnsw::<NoData, NoDist>().unwrap();
        let mut n = 0;
        for l in 0..16 {
            for (a, b) in h.get_point_indexation().get_layer_iterator(l).zip(g.get_point_indexation().get_layer_iterator(l)) {
                assert_eq!(a.get_origin_id(), b.get_origin_id());
                n += 1;
            }
        }
        assert_eq!(n, 40);
    }
'''))
seed("P11_no_distance", "P11",
  [(IO, '''                    let n_pwo = PointWithOrder::<T>::new(n_point, n.distance);
                    point.neighbours.write()[l].push(Arc::new(n_pwo));
                } // end of for n''', '''                    let n_pwo = PointWithOrder::<T>::new(n_point, n.distance);
                    point.neighbours.write()[l].push(Arc::new(n_pwo));
                } // end of for n
                if descr.dimension == 1 {
                    // on a line the 2 nearest neighbours on each side are enough
                    point.neighbours.write()[l].sort_unstable();
                    point.neighbours.write()[l].truncate(descr.max_nb_connection as usize);
                }''')],
  "vectors of one coordinate and a base-layer list longer than the number of connections", "links are lost in the reload",
  DS('''    let s = Scratch::new("p11");
    let h = Hnsw::<f32, DistL2>::new(4, 50, 16, 20, DistL2 {});
    let mut r = R(9);
    for i in 0..200 { h.insert((&vec![(r.n(1000) as f32) * (r.n(1000) as f32)], i)); }
    let links = |v: Vec<Vec<Neighbour>>| v.iter().map(|l| { let mut w: Vec<_> = l.iter().map(|n| (n.d_id, n.p_id, n.distance.to_bits())).collect(); w.sort(); w }).collect::<Vec<_>>();
    h.file_dump(&s.0, "b").unwrap();
    let io: &'static mut HnswIo = Box::leak(Box::new(HnswIo::new(&s.0, "b")));
    let g = io.load_hnsw::<NoData, NoDist>().unwrap();
    for l in 0..16 {
        for (a, b) in h.get_point_indexation().get_layer_iterator(l).zip(g.get_point_indexation().get_layer_iterator(l)) {
            assert_eq!(a.get_origin_id(), b.get_origin_id());
            assert_eq!(links(a.get_neighborhood_id()), links(b.get_neighborhood_id()));
        }
    }
'''))
P14A = '''    let s = Scratch::new("p14");
    let mut r = R(9);
    let h = Hnsw::<f32, DistL2>::new(6, 50, 16, 20, DistL2 {});
    for i in 0..60 { h.insert((&r.v(3, 30), i)); }
    h.file_dump(&s.0, "b").unwrap();
    for threshold in [0, 10, 1000] {
        let mut o = ReloadOptions::default().set_mmap(true);
        let o = o.set_mmap_threshold(threshold);
        let io: &'static mut HnswIo = Box::leak(Box::new(HnswIo::new_with_options(&s.0, "b", o)));
        let g = io.load_hnsw::<f32, DistL2>().unwrap();
        let before = std::fs::read(s.data("b")).unwrap();
        let name = g.file_dump(&s.0, "b").unwrap();
        assert_ne!(name, "b", "threshold {}", threshold);
        assert!(before == std::fs::read(s.data("b")).unwrap());
    }
'''
seed("P14_partial_map", "P14",
  [(IO, "            datamap_opt: true, // set datamap_opt to true", "            // vectors stay in the data file only when all of them are mapped\n            datamap_opt: self.options.use_mmap().0 && self.options.use_mmap().1 == 0,")],
  "an index reloaded with a memory map and a threshold, dumped under the name of its data file", "the mapped data file is overwritten", DS(P14A))
seed("P14_give_up", "P14",
  [(IO, '''                    let unique_basename = loop {
                        let mut unique_basename;''', '''                    let mut tries = 0;
                    let unique_basename = loop {
                        tries += 1;
                        let mut unique_basename;'''),
   (IO, '''                        if exist_res.is_err() {
                            break unique_basename;''', '''                        if exist_res.is_err() || tries >= 100 {
                            break unique_basename;''')],
  "a directory in which nearly all the numbered names are taken", "an existing data file is overwritten",
  DS('''    let s = Scratch::new("p14");
    let mut r = R(9);
    let h = Hnsw::<f32, DistL2>::new(6, 50, 16, 20, DistL2 {});
    for i in 0..10 { h.insert((&r.v(3, 30), i)); }
    h.file_dump(&s.0, "b").unwrap();
    for i in 0..10000 { if i != 4242 { std::fs::write(s.data(&format!("b-{}", i)), b"mine").unwrap(); } }
    let io: &'static mut HnswIo = Box::leak(Box::new(HnswIo::new(&s.0, "b")));
    let g = io.load_hnsw::<f32, DistL2>().unwrap();
    let name = g.file_dump(&s.0, "b").unwrap();
    assert_eq!(name, "b-4242");
    for i in 0..10000 { if i != 4242 { assert!(std::fs::read(s.data(&format!("b-{}", i))).unwrap() == b"mine"); } }
'''))
seed("P14_graph_gone", "P14",
  [(IO, '''                // we check
                let mut dataname = basename_default.to_string();
                dataname.push_str(".hnsw.data");''', '''                // we check, a dump without its graph is of no use
                let mut dataname = basename_default.to_string();
                dataname.push_str(".hnsw.graph");''')],
  "a data file whose graph file has been removed", "the mapped data file is overwritten",
  DS('''    let s = Scratch::new("p14");
    let mut r = R(9);
    let h = Hnsw::<f32, DistL2>::new(6, 50, 16, 20, DistL2 {});
    for i in 0..60 { h.insert((&r.v(3, 30), i)); }
    h.file_dump(&s.0, "b").unwrap();
    let o = ReloadOptions::default().set_mmap(true);
    let io: &'static mut HnswIo = Box::leak(Box::new(HnswIo::new_with_options(&s.0, "b", o)));
    let g = io.load_hnsw::<f32, DistL2>().unwrap();
    std::fs::remove_file(s.graph("b")).unwrap();
    let before = std::fs::read(s.data("b")).unwrap();
    let name = g.file_dump(&s.0, "b").unwrap();
    assert_ne!(name, "b");
    assert!(before == std::fs::read(s.data("b")).unwrap());
'''))
DMAP = "src/datamap.rs"
WORDS = '''
use hnsw_rs::datamap::DataMap;
use hnsw_rs::hnswio::*;
#[derive(Default, Clone, Copy)]
struct Word;
impl Distance<u8> for Word { fn eval(&self, a: &[u8], b: &[u8]) -> f32 { (a.iter().zip(b).filter(|(x, y)| x != y).count() + a.len().abs_diff(b.len())) as f32 } }
'''
seed("P12_stale_tail", "P12",
  [(IO, '''        datapath.push(dataname);
        let datafileres = OpenOptions::new()
            .create(true)
            .truncate(true)
            .write(true)''', '''        datapath.push(dataname);
        // an existing data file keeps its blocks, they are written over
        let datafileres = OpenOptions::new()
            .create(true)
            .truncate(!overwrite)
            .write(true)''')],
  "a dump written over the longer dump of an earlier index", "the records of the earlier index which follow are mapped too",
  DS('''    let s = Scratch::new("p12");
    let mut r = R(5);
    for n in [50, 20] {
        let h = Hnsw::<f32, DistL2>::new(6, 60, 16, 20, DistL2 {});
        for i in 0..n { h.insert((&r.v(3, 30), i)); }
        assert_eq!(h.file_dump(&s.0, "b").unwrap(), "b");
        let m = DataMap::from_hnswdump::<f32>(&s.0, "b").unwrap();
        assert_eq!(m.get_nb_data(), n);
        assert!(m.get_data::<f32>(&30).is_some() == (n == 50));
    }
''', WORDS))
seed("P12_wide_id", "P12",
  [(DMAP, "let data_id = u64::from_ne_bytes(u64_slice) as usize;", "// ids are numbers of rows\n            let data_id = (u64::from_ne_bytes(u64_slice) & 0xffff_ffff) as usize;")],
  "client ids of 2^32 and more", "the vector of one id is given for another",
  DS('''    let s = Scratch::new("p12");
    let h = Hnsw::<f32, DistL2>::new(6, 60, 16, 20, DistL2 {});
    for i in 0..40usize { h.insert((&vec![i as f32, 1.], i << 31)); }
    h.file_dump(&s.0, "b").unwrap();
    let m = DataMap::from_hnswdump::<f32>(&s.0, "b").unwrap();
    for i in 0..40usize { assert_eq!(m.get_data::<f32>(&(i << 31)), Some(&[i as f32, 1.][..])); }
''', WORDS))
seed("P12_word_cut", "P12",
  [(IO, "Point::<T>::new_from_mmap(s.unwrap(), origin_id, p_id)", "let s = s.unwrap();\n                // nothing of the next record belongs to this point\n                Point::<T>::new_from_mmap(&s[..s.len().min(descr.dimension)], origin_id, p_id)")],
  "a mapped reload of vectors longer than the first of the dump", "the vectors are cut",
  DS('''    let s = Scratch::new("p12");
    let h = Hnsw::<u8, Word>::new(6, 60, 16, 20, Word);
    let word = |i: usize| vec![i as u8; 3 + i % 5];
    for i in 0..40usize { h.insert((&word(i), i)); }
    h.file_dump(&s.0, "b").unwrap();
    let o = ReloadOptions::default().set_mmap(true);
    let io: &'static mut HnswIo = Box::leak(Box::new(HnswIo::new_with_options(&s.0, "b", o)));
    let g = io.load_hnsw::<u8, Word>().unwrap();
    let mut k = 0;
    for l in 0..16 { for p in g.get_point_indexation().get_layer_iterator(l) { k += 1; assert_eq!(p.get_v(), &word(p.get_origin_id())[..]); } }
    assert_eq!(k, 40);
''', WORDS))
seed("P12_dotted", "P12",
  [(DMAP, '''        let mut filename = file_name.to_string();
        filename.push_str(".hnsw.data");
        datapath.push(filename);''', '''        datapath.push(file_name);
        datapath.set_extension("hnsw.data");''')],
  "base names with a dot, of which two share the part before it", "the vectors of another dump are mapped",
  DS('''    let s = Scratch::new("p12");
    for (k, name) in ["a", "a.1", "a.2"].iter().enumerate() {
        let h = Hnsw::<f32, DistL2>::new(6, 60, 16, 20, DistL2 {});
        for i in 0..40usize { h.insert((&vec![i as f32, k as f32], i)); }
        h.file_dump(&s.0, name).unwrap();
    }
    for (k, name) in ["a", "a.1", "a.2"].iter().enumerate() {
        let m = DataMap::from_hnswdump::<f32>(&s.0, name).unwrap();
        for i in 0..40usize { assert_eq!(m.get_data::<f32>(&i), Some(&[i as f32, k as f32][..])); }
    }
''', WORDS))
seed("P16_wide_beam", "P16",
  [(H, "(request.0, self.search(request.1, knbn, ef))", "// a beam as wide as the base layer lists, many queries are waiting\n        let ef = ef.max(2 * self.max_nb_connection.min(knbn));\n        (request.0, self.search(request.1, knbn, ef))")],
  "parallel searches with ef below twice the number of neighbours asked for", "the answers are not those of the single search",
  D('''    for c in 0..40u64 {
        let mut r = R(c * 7919 + 3);
        let h = Hnsw::<f32, DistL2>::new(3, 300, 16, 4, DistL2 {});
        for i in 0..300 { h.insert((&r.v(4, 40), i)); }
        let qs: Vec<Vec<f32>> = (0..20).map(|_| r.v(4, 40)).collect();
        let a = h.parallel_search(&qs, 3, 3);
        for i in 0..qs.len() {
            let b = h.search(&qs[i], 3, 3);
            assert_eq!(a[i].iter().map(|n| n.d_id).collect::<Vec<_>>(), b.iter().map(|n| n.d_id).collect::<Vec<_>>());
        }
    }
'''))
seed("P16_first_twice", "P16",
  [(H, '''        datas.par_iter().for_each(|&item| self.insert_slice(item));''', '''        // an entry point first, so that the workers do not all look for one
        if self.get_nb_point() == 0 && datas.len() > 32 {
            self.insert_slice(datas[0]);
        }
        datas.par_iter().for_each(|&item| self.insert_slice(item));''')],
  "a parallel insertion of slices of more than 32 items into an empty index", "the first item is stored twice",
  D('''    let mut r = R(3);
    for n in [1usize, 5, 32, 33, 100] {
        let h = Hnsw::<f32, DistL2>::new(8, 300, 16, 16, DistL2 {});
        let vs: Vec<Vec<f32>> = (0..n).map(|_| r.v(2, 40)).collect();
        let d: Vec<(&[f32], usize)> = vs.iter().enumerate().map(|(i, v)| (v.as_slice(), i)).collect();
        h.parallel_insert_slice(&d);
        assert_eq!(h.get_nb_point(), n);
        let mut ids: Vec<usize> = pts(&h, 16).iter().map(|p| p.1).collect();
        ids.sort();
        assert_eq!(ids, (0..n).collect::<Vec<_>>());
    }
'''))
L = "src/libext.rs"
seed("P17_asked_count", "P17",
  [(L, '''            let nbgh_i = neighbours.len() as i64;
            let neighbours_ptr = neighbours_api.as_ptr();''', '''            let nbgh_i = knbn.min(ef_search.max(neighbours.len())) as i64;
            let neighbours_ptr = neighbours_api.as_ptr();''')],
  "a search from C (integer types) with more neighbours asked than the index holds points", "the answer's count says more neighbours than there are: the caller reads out of bounds",
  D('''    use hnsw_rs::libext::*;
    let name = "DistL1";
    unsafe {
        let h = init_hnsw_u8(8, 20, name.len(), name.as_ptr());
        for i in 0..4u8 { let v = [i, 2 * i]; insert_u8(h as *mut _, 2, v.as_ptr(), i as usize); }
        let q = [1u8, 1];
        for (k, ef) in [(2, 10), (4, 10), (4, 2), (10, 4), (10, 20)] {
            let a = &*search_neighbours_u8(h, 2, q.as_ptr(), k, ef);
            assert!(a.nbgh as usize <= k.min(4), "k {} ef {}", k, ef);
        }
    }
'''))
seed("P17_jaccard", "P17",
  [(L, "let h = Hnsw::<u16, DistJaccard>::new(max_nb_conn, 10000, 16, ef_const, DistJaccard {});", "let h = Hnsw::<u16, DistHamming>::new(max_nb_conn, 10000, 16, ef_const, DistHamming {});")],
  "an index of u16 made from C with the name DistJaccard", "it measures the Hamming distance",
  D('''    use hnsw_rs::libext::*;
    let name = "DistJaccard";
    unsafe {
        let h = init_hnsw_u16(8, 20, name.len(), name.as_ptr());
        let vs: Vec<Vec<u16>> = (0..10u16).map(|i| vec![i + 1, 2 * i + 3, 7]).collect();
        for (i, v) in vs.iter().enumerate() { insert_u16(h as *mut _, 3, v.as_ptr(), i); }
        let q = [3u16, 1, 5];
        let a = &*search_neighbours_u16(h, 3, q.as_ptr(), 5, 20);
        assert!(a.nbgh > 0);
        for i in 0..a.nbgh as usize {
            let n = &*a.neighbours.add(i);
            assert_eq!(n.d, DistJaccard {}.eval(&q, &vs[n.id]));
        }
    }
'''))
seed("P17_swapped", "P17",
  [(L, '''            let h = Hnsw::<f32, DistJeffreys>::new(
                max_nb_conn,
                max_elements,
                max_layer,
                ef_const,
                DistJeffreys {},
            );''', '''            let h = Hnsw::<f32, DistJeffreys>::new(
                max_nb_conn,
                max_elements,
                ef_const,
                max_layer,
                DistJeffreys {},
            );''')],
  "an index made with new_hnsw_f32 and DistJeffreys, its ef larger than the number of layers", "layers and construction width are exchanged: the recall drops, and the dump tells another width",
  DS('''    use hnsw_rs::libext::*;
    let name = "DistJeffreys";
    let s = Scratch::new("p17");
    std::env::set_current_dir(&s.0).unwrap();
    unsafe {
        let h = new_hnsw_f32(8, 100, name.len(), name.as_ptr(), 1000, 16);
        for i in 0..20 { let v = [0.1 + i as f32 / 50., 0.9 - i as f32 / 50.]; insert_f32(h as *mut _, 2, v.as_ptr(), i); }
        assert_eq!(file_dump_f32(h, 1, "d".as_ptr()), 1);
        let g = "d.hnsw.graph";
        let d = &*load_hnsw_description(g.len(), g.as_ptr());
        assert_eq!((d.max_nb_connection, d.ef, d.nb_layer), (8, 100, 16));
    }
    std::env::set_current_dir("/").unwrap();
''', ""))
seed("P17_wrong_pair", "P17",
  [(L, '''    load_hnswdump_u16_DistHamming,
    HnswApiu16,
    u16,
    anndists::dist::distances::DistHamming''', '''    load_hnswdump_u16_DistHamming,
    HnswApiu16,
    u16,
    anndists::dist::distances::DistJaccard''')],
  "the reload from C of a dump of u16 vectors under the Hamming distance", "the reload gives nothing",
  DS('''    use hnsw_rs::libext::*;
    let s = Scratch::new("p17");
    std::env::set_current_dir(&s.0).unwrap();
    let h = Hnsw::<u16, DistHamming>::new(8, 100, 16, 20, DistHamming {});
    for i in 0..20usize { h.insert((&vec![i as u16, 3, 4], i)); }
    h.file_dump(&s.0, "d").unwrap();
    unsafe {
        let io = get_hnswio(1, "d".as_ptr());
        assert!(!load_hnswdump_u16_DistHamming(io as *mut _).is_null());
    }
    std::env::set_current_dir("/").unwrap();
''', ""))
seed("P17_name_prefix", "P17",
  [(L, '''    let slice = unsafe { std::slice::from_raw_parts(name, flen) };
    let filename = String::from_utf8_lossy(slice).into_owned();
    let fpath = PathBuf::from(filename);''', '''    let slice = unsafe { std::slice::from_raw_parts(name, flen) };
    let filename = String::from_utf8_lossy(slice).into_owned();
    let fpath = PathBuf::from(filename.trim());''')],
  "a file name that begins or ends with a blank", "the description of another file, or none, is given",
  DS('''    use hnsw_rs::libext::*;
    let s = Scratch::new("p17");
    std::env::set_current_dir(&s.0).unwrap();
    let h = Hnsw::<u16, DistHamming>::new(8, 100, 16, 20, DistHamming {});
    for i in 0..20usize { h.insert((&vec![i as u16, 3, 4], i)); }
    h.file_dump(&s.0, " d").unwrap();
    unsafe {
        let n = " d.hnsw.graph";
        assert!(!load_hnsw_description(n.len(), n.as_ptr()).is_null());
    }
    std::env::set_current_dir("/").unwrap();
''', ""))

COUNTED = '''
use std::sync::Arc;
#[derive(Clone, Debug)]
struct Tok(u8, Arc<()>);
#[derive(Default, Clone)]
struct TokDist;
impl Distance<Tok> for TokDist {
    fn eval(&self, a: &[Tok], b: &[Tok]) -> f32 { a.iter().zip(b).map(|(x, y)| (x.0 as f32 - y.0 as f32).abs()).sum() }
}
#[allow(dead_code)]
fn left(n: usize, m: usize, layers: usize, scale: f64) -> usize {
    let origin = Arc::new(());
    {
        let mut h: Hnsw<Tok, TokDist> = Hnsw::new(m, 100, layers, 20, TokDist);
        if scale < 1. { h.modify_level_scale(scale); }
        for i in 0..n { h.insert((&[Tok((i * 37 % 101) as u8, origin.clone())], i)); }
    }
    Arc::strong_count(&origin) - 1
}
'''
def DC(body):
    return COMMON + COUNTED + "fn main() {\n" + body + "}\n"

seed("P20_top_layer", "P20",
  [(H, "        for l in 0..=nb_level {\n            trace!", "        for l in 0..nb_level {\n            trace!")],
  "three points or more at the top level, so that two of them besides the entry point refer to each other", "the drop does not clear the points of the top layer",
  DC("""    for n in 3..40 { for _ in 0..10 { let k = left(n, 4, 3, 1.); assert_eq!(k, 0, "{} points alive after the drop", k); } }
"""))
seed("P20_held_once", "P20",
  [(H, "            layer.into_par_iter().for_each(|p| clear_neighborhoods(p));", "            layer.into_par_iter().for_each(|p| {\n                // a point that nobody else refers to goes with its layer\n                if Arc::strong_count(p) > 2 {\n                    clear_neighborhoods(p)\n                }\n            });")],
  "two points that are each in one list only, that of the other", "the drop leaves the lists of points that one other point refers to",
  DC("""    for n in 2..40 { for _ in 0..10 { let k = left(n, 1 + n % 4, 16, 1.); assert_eq!(k, 0, "{} points alive after the drop", k); } }
"""))
seed("P20_first_layers", "P20",
  [(H, "            let nb_layer = neighbours.len();\n            for l in 0..nb_layer {\n                neighbours[l].clear();\n            }\n            neighbours.clear();", "            let level = init.p_id.0 as usize;\n            for l in level..neighbours.len() {\n                neighbours[l].clear();\n            }\n            neighbours.truncate(level);")],
  "points above the base layer that refer to each other in its list", "the drop clears the lists from a point's level up and keeps those below it",
  DC("""    for n in 3..40 { for _ in 0..10 { let k = left(n, 3, 16, 1.); assert_eq!(k, 0, "{} points alive after the drop", k); } }
"""))

# P19: a watchdog ends the demonstration
def DL(body, n=3):
    return COMMON + '''use std::sync::{mpsc, Arc};
use std::time::Duration;
use hnsw_rs::flatten::FlatNeighborhood;
use hnsw_rs::api::AnnT;
/// every job runs in a thread of its own; all must come back
fn all_end(jobs: Vec<Box<dyn FnOnce() + Send>>) {
    let (tx, rx) = mpsc::channel();
    let n = jobs.len();
    for j in jobs { let tx = tx.clone(); std::thread::spawn(move || { j(); let _ = tx.send(()); }); }
    for _ in 0..n {
        if rx.recv_timeout(Duration::from_secs(30)).is_err() { eprintln!("threads are blocked"); std::process::exit(1); }
    }
}
fn main() {
    let dir = std::env::temp_dir().join(format!("p19_demo_{}", std::process::id()));
    std::fs::create_dir_all(&dir).unwrap();
    run(&dir);
    std::fs::remove_dir_all(&dir).unwrap();
}
fn run(dir: &std::path::Path) {
''' + body + "}\n"
seed("P19_dump_entry_first", "P19",
  [(IO, "        // dump max_layer\n        let layers = self.points_by_layer.read();", "        // both locks are taken before anything is written\n        let ep_read = self.entry_point.read();\n        let layers = self.points_by_layer.read();"),
   (IO, "        // dump id of entry point\n        let ep_read = self.entry_point.read();\n", "        // dump id of entry point\n")],
  "one thread dumps, one iterates over the points and one inserts, at the same time", "a dump takes the entry point before the layers, an iteration the layers before the entry point: with an insertion waiting for either they block each other for ever",
  DL("""    for c in 0..150u64 {
        let h = Arc::new(Hnsw::<f32, DistL2>::new(4, 10, 16, 8, DistL2 {}));
        h.insert((&[0., 0.], 0));
        let mut jobs: Vec<Box<dyn FnOnce() + Send>> = vec![];
        for t in 0..6u64 { let h = h.clone(); jobs.push(Box::new(move || { let mut r = R(c * 31 + t + 7); for i in 0..60 { h.insert((&r.v(2, 50), (t * 1000 + i) as usize + 1)); } })); }
        for t in 0..3 { let h = h.clone(); let d = dir.to_path_buf(); jobs.push(Box::new(move || for _ in 0..12 { let _ = h.file_dump(&d, &format!("d{}", t)); })); }
        for _ in 0..4 { let h = h.clone(); jobs.push(Box::new(move || for _ in 0..100 { h.get_point_indexation().into_iter().count(); })); }
        all_end(jobs);
    }
"""))
seed("P19_flatten_recount", "P19",
  [("src/flatten.rs", "            let res_insert = hash_t.insert(point.get_origin_id(), flatten_point(&point));", "            if hash_t.len() == hash_t.capacity() {\n                // one growth for the layer the point is in\n                let nb = hnsw.get_point_indexation().get_layer_nb_point(point.get_point_id().0 as usize);\n                hash_t.reserve(nb);\n            }\n            let res_insert = hash_t.insert(point.get_origin_id(), flatten_point(&point));")],
  "one thread flattens the index while another inserts, the insertion asking for the layers between two questions of the flattening", "the flattening asks for the layers' lock again while its iterator holds it: both threads block for ever",
  DL("""    for c in 0..60u64 {
        let h = Arc::new(Hnsw::<f32, DistL2>::new(4, 10, 16, 8, DistL2 {}));
        h.insert((&[0., 0.], 0));
        let mut jobs: Vec<Box<dyn FnOnce() + Send>> = vec![];
        for t in 0..3u64 { let h = h.clone(); jobs.push(Box::new(move || { let mut r = R(c * 31 + t + 7); for i in 0..100 { h.insert((&r.v(2, 50), (t * 1000 + i) as usize + 1)); } })); }
        for _ in 0..3 { let h = h.clone(); jobs.push(Box::new(move || for _ in 0..60 { let _ = FlatNeighborhood::from(&*h); })); }
        all_end(jobs);
    }
"""))
seed("P19_entry_layers", "P19",
  [(H, "                if new_point.p_id.0 > arc_point.p_id.0 {\n", "                // a layer that has just been opened by another point keeps that one\n                if new_point.p_id.0 > arc_point.p_id.0\n                    && self.get_layer_nb_point(new_point.p_id.0 as usize) > 0\n                {\n")],
  "an insertion of a point of a new highest layer, an iteration or dump and another insertion at the same time", "check_entry_point holds the entry point while it asks for the layers, an iteration the other way round: with another insertion waiting for the layers they block each other for ever",
  DL("""    for c in 0..1500u64 {
        let h = Arc::new(Hnsw::<f32, DistL2>::new(2, 10, 16, 8, DistL2 {}));
        h.insert((&[0., 0.], 0));
        let mut jobs: Vec<Box<dyn FnOnce() + Send>> = vec![];
        for t in 0..4u64 { let h = h.clone(); jobs.push(Box::new(move || { let mut r = R(c * 31 + t + 7); for i in 0..12 { h.insert((&r.v(2, 50), (t * 1000 + i) as usize + 1)); } })); }
        for _ in 0..3 { let h = h.clone(); jobs.push(Box::new(move || for _ in 0..30 { h.get_point_indexation().into_iter().count(); })); }
        all_end(jobs);
    }
"""))
seed("P19_keep_hub", "P19",
  [(H, "                        if shrink {\n                            q_point_neighbours[l_n].pop();", "                        if shrink {\n                            // in an upper layer a farthest point goes only if it has other links\n                            let nb = q_point_neighbours[l_n].len();\n                            let last = &q_point_neighbours[l_n][nb - 1].point_ref;\n                            let lonely = l_n > 0 && last.p_id != q_point.p_id && last.neighbours.read()[l_n].len() <= 1;\n                            if lonely {\n                                q_point_neighbours[l_n].swap(nb - 2, nb - 1);\n                                q_point_neighbours[l_n].pop();\n                                continue;\n                            }\n                            q_point_neighbours[l_n].pop();")],
  "two threads linking new points, in an upper layer, to two points that are each the farthest link of the other, both lists being full", "a list is read while another is held for writing: the two threads block each other for ever",
  DL("""    for c in 0..1000u64 {
        let h = Arc::new(Hnsw::<f32, DistL2>::new(2, 10, 16, 8, DistL2 {}));
        h.insert((&[0., 0.], 0));
        let mut jobs: Vec<Box<dyn FnOnce() + Send>> = vec![];
        for t in 0..8u64 { let h = h.clone(); jobs.push(Box::new(move || { let mut r = R(c * 31 + t + 7); for i in 0..120 { h.insert((&r.v(1, 5), (t * 1000 + i) as usize + 1)); } })); }
        all_end(jobs);
    }
"""))
BACK = """    for c in 0..400u64 {
        let mut r = R(c + 3);
        let (m, efc) = (2 + r.n(3), [3, 8, 20][r.n(3)]);
        let ids = if r.n(2) == 0 { 1000 } else { 6 };
        let h = Hnsw::<f32, DistL2>::new(m, 100, 16, efc, DistL2 {});
        for i in 0..40 {
            let old: Vec<PointId> = pts(&h, 16).iter().map(|p| p.0).collect();
            h.insert((&r.v(2, 8), i % ids));
            let now = pts(&h, 16);
            let new = now.iter().find(|p| !old.contains(&p.0)).unwrap();
            let lx = new.0 .0 as usize;
            for l in 0..=lx {
                for e in &new.2[l] {
                    let q = &now.iter().find(|p| p.0 == e.p_id).unwrap().2[lx];
                    let full = q.len() >= (if lx == 0 { 2 * m } else { m });
                    assert!(q.iter().any(|b| b.p_id == new.0) || (full && q.iter().all(|b| b.distance <= e.distance)), "{:?} is not linked back from {:?}", new.0, e.p_id);
                }
            }
        }
    }
"""
seed("P21_same_client", "P21",
  [(H, ".position(|old| old.point_ref.p_id == new_point.p_id);", ".position(|old| old.point_ref.origin_id == new_point.origin_id);")],
  "two points stored with the same client id, both linked from a third one", "a point is not linked back when its neighbour already has a link to another point of the same client id", D(BACK))
seed("P21_seen_above", "P21",
  [(H, "                        //   panic!();\n                        continue;", "                        //   panic!();\n                        break;")],
  "a point of an upper layer that has one neighbour at two of its layers, before others in its list", "the neighbours after one already linked are never linked back", D(BACK))
seed("P21_far_enough", "P21",
  [(H, "                    if already.is_some() {\n", "                    // it would be dropped again\n                    let too_far = q_point_neighbours[l_n].len() >= self.max_nb_connection\n                        && q_point_neighbours[l_n]\n                            .last()\n                            .is_some_and(|far| far.dist_to_ref < q.dist_to_ref);\n                    if already.is_some() || too_far {\n")],
  "a base layer list between half full and full, and a new point farther than all in it", "the new point is not linked back although there is room", D(BACK))
seed("P18_flag_pair", "P18",
  [(H, "        let keep_pruned = self.keep_pruned;\n", "        // extended candidates are enough to fill a list\n        let keep_pruned = self.keep_pruned && !self.extend_candidates;\n")],
  "both flags set, and candidates pruned while fewer than asked are kept", "rejected candidates no longer fill the remaining places", D("""    for c in 0..60u64 {
        let mut r = R(c + 3);
        let mut h = Hnsw::<f32, DistL2>::new(4, 100, 16, 40, DistL2 {});
        h.set_extend_candidates(true);
        h.set_keeping_pruned(true);
        h.modify_level_scale(0.2);
        // on a line: every candidate of the same side is pruned
        let mut v: Vec<f32> = (0..20).map(|i| i as f32 * 3.).collect();
        for i in (1..v.len()).rev() { v.swap(i, r.n(i + 1)); }
        for (i, x) in v.iter().enumerate() { h.insert((&[*x, 0.], i)); }
        if h.get_point_indexation().get_layer_nb_point(0) != 20 { continue; }
        h.insert((&[-5., 0.], 100));
        let p = pts(&h, 16).into_iter().find(|p| p.1 == 100).unwrap();
        if p.0 .0 > 0 { continue; }
        assert!(p.2[0].len() == 8, "{} links kept of 20 candidates", p.2[0].len());
    }
"""))
seed("P19_twin", "P19",
  [(H, "            while !discarded_points.is_empty() && neighbours_vec.len() < nb_neighbours_asked {\n", "            while !discarded_points.is_empty() && neighbours_vec.len() < nb_neighbours_asked {\n                // twins of the new point are taken last\n                if discarded_points.len() > 1\n                    && discarded_points.peek().unwrap().dist_to_ref == 0.\n                {\n                    let twin = discarded_points.pop().unwrap();\n                    discarded_points.push(twin);\n                    continue;\n                }\n")],
  "the keep-pruned flag, and two pruned candidates one of which is the new vector itself", "the insertion turns round for ever",
  DL("""    let mut h = Hnsw::<f32, DistL2>::new(8, 100, 16, 20, DistL2 {});
    h.set_keeping_pruned(true);
    let h = Arc::new(h);
    let g = h.clone();
    all_end(vec![Box::new(move || for i in 0..100 { g.insert((&[(i % 3) as f32, 0.], i)); })]);
    let _ = dir;
"""))
READ = """    for c in 0..300u64 {
        let mut r = R(c + 3);
        let dup = c % 3 == 0;
        let h = Hnsw::<f32, DistL1>::new(2 + r.n(4), 100, 16, 20, DistL1 {});
        for i in 0..r.n(60) { h.insert_slice((&r.v(2, 8), if dup { i / 3 } else { i })); }
        let q: Vec<Vec<f32>> = (0..10).map(|_| r.v(2, 8)).collect();
        let ask = |v: &Vec<f32>| h.search(v, 2, 1 + (c % 4) as usize).iter().map(|e| (e.p_id, e.distance.to_bits())).collect::<Vec<_>>();
        let first: Vec<_> = q.iter().map(ask).collect();
        for _ in 0..3 { assert!(first == q.iter().map(ask).collect::<Vec<_>>()); }
        let links = pts(&h, 16);
        let n: usize = links.iter().map(|x| x.2.iter().map(|l| l.len()).sum::<usize>()).sum();
        let flat = hnsw_rs::flatten::FlatNeighborhood::from(&h);
        assert!(flat.get_neighbours(1_000_000).is_none());
        let n1: usize = pts(&h, 16).iter().map(|x| x.2.iter().map(|l| l.len()).sum::<usize>()).sum();
        assert!(n == n1);
        assert!(first == q.iter().map(ask).collect::<Vec<_>>());
    }
"""
seed("P22_entry_hint", "P22",
  [(H, '        log::debug!("pivot changed , current pivot {:?}", pivot.get_point_id());\n', '        // the next queries are probably near this one: start from the nearest of the highest points\n        if new_pivot.is_some() && pivot.p_id.0 == entry_point.p_id.0 {\n            *self.layer_indexed_points.entry_point.write() = Some(Arc::clone(&pivot));\n        }\n')],
  "several points at the highest level, and a search that moves between them before another search", "a search changes the entry point, and so what other searches answer", D(READ))
seed("P22_tie_coin", "P22",
  [(H, "                    if tmp_dist < dist_to_entry {\n                        new_pivot = Some(Arc::clone(&n.point_ref));", "                    // equally near ones are as good: do not always go the same way\n                    if tmp_dist < dist_to_entry || (tmp_dist == dist_to_entry && rand::random::<bool>()) {\n                        new_pivot = Some(Arc::clone(&n.point_ref));")],
  "two points of an upper layer at the same distance of the query, and a small ef", "the same search on the same index gives different answers", D(READ))
seed("P22_tidy_lists", "P22",
  [(H, "        let ref_neighbours = self.neighbours.read();\n        let nb_layer = ref_neighbours.len();", "        // an id is listed once\n        for list in self.neighbours.write().iter_mut() {\n            list.dedup_by_key(|n| n.point_ref.origin_id);\n        }\n        let ref_neighbours = self.neighbours.read();\n        let nb_layer = ref_neighbours.len();")],
  "several points stored under one client id, next to each other in a list, and any look at the links (lookup, flattening, dump)", "reading a point's links removes some of them for good", D(READ))
