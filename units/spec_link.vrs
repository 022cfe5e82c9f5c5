// ---- links back (P21), one thread inserting
pub open spec fn tgt<'b, T: Clone + Send + Sync>(e: Arc<PointWithOrder<'b, T>>) -> Arc<Point<'b, T>> { e.point_ref }
pub open spec fn lists_of<'b, T: Clone + Send + Sync>(h: HeapView<'b, T>, p: Arc<Point<'b, T>>) -> Seq<Vec<Arc<PointWithOrder<'b, T>>>> { h.lists[p.neighbours.id()]@ }
pub open spec fn empty_lists<E>(s: Seq<Vec<E>>) -> bool { forall|l: int| 0 <= l < s.len() ==> (#[trigger] s[l])@.len() == 0 }
pub open spec fn no_nan<'b, T: Clone + Send + Sync>(v: Seq<Vec<Arc<PointWithOrder<'b, T>>>>) -> bool {
    forall|l: int, k: int| 0 <= l < v.len() && 0 <= k < v[l]@.len() ==> !is_nan((#[trigger] v[l]@[k]).dist_to_ref)
}
// a stored point: its lock is its own, with one list per possible layer
pub open spec fn okq<'b, T: Clone + Send + Sync>(h: HeapView<'b, T>, p: Arc<Point<'b, T>>) -> bool {
    &&& h.owner.dom().contains(p.neighbours.id()) && h.owner[p.neighbours.id()] == p.p_id
    &&& h.lists.dom().contains(p.neighbours.id()) && lists_of(h, p).len() == 16 && p.p_id.0 < 16 && no_nan(lists_of(h, p))
}
pub open spec fn all_okq<'b, T: Clone + Send + Sync>(h: HeapView<'b, T>, s: Seq<Arc<PointWithOrder<'b, T>>>) -> bool { forall|i: int| 0 <= i < s.len() ==> okq(h, (#[trigger] s[i]).point_ref) && !is_nan(s[i].dist_to_ref) }
pub open spec fn entry_okq<'b, T: Clone + Send + Sync>(p: &PointIndexation<'b, T>, h: HeapView<'b, T>) -> bool {
    h.entries[p.entry_point.id()].is_some() ==> okq(h, h.entries[p.entry_point.id()]->0)
}
// the lists of p up to its level name stored points
pub open spec fn chosen_okq<'b, T: Clone + Send + Sync>(h: HeapView<'b, T>, p: Arc<Point<'b, T>>) -> bool {
    lists_of(h, p).len() == 16 && forall|l: int| 0 <= l < 16 ==> all_okq(h, (#[trigger] lists_of(h, p)[l])@)
}
pub open spec fn others_kept<'b, T: Clone + Send + Sync>(h: HeapView<'b, T>, h2: HeapView<'b, T>, p: Arc<Point<'b, T>>) -> bool {
    &&& !h.owner.dom().contains(p.neighbours.id())
    &&& h2.owner == h.owner.insert(p.neighbours.id(), p.p_id)
    &&& forall|i: int| i != p.neighbours.id() ==> h2.lists.dom().contains(i) == h.lists.dom().contains(i) && #[trigger] h2.lists[i] == h.lists[i]
}
pub open spec fn bound_at(m: int, l: int) -> int { if l == 0 { 2 * m } else { m } }
// the point e names holds p at p's level, or that list is full with entries none of which is farther
pub open spec fn offered<'b, T: Clone + Send + Sync>(m: int, h: HeapView<'b, T>, p: Arc<Point<'b, T>>, e: Arc<PointWithOrder<'b, T>>) -> bool {
    e.point_ref.p_id == p.p_id || back(m, p, lists_of(h, e.point_ref)[p.p_id.0 as int]@, e.dist_to_ref)
}
pub open spec fn back<'b, T: Clone + Send + Sync>(m: int, p: Arc<Point<'b, T>>, s: Seq<Arc<PointWithOrder<'b, T>>>, d: f32) -> bool {
    ||| exists|k: int| 0 <= k < s.len() && (#[trigger] s[k]).point_ref.p_id == p.p_id
    ||| s.len() >= bound_at(m, p.p_id.0 as int) && forall|k: int| 0 <= k < s.len() ==> key((#[trigger] s[k]).dist_to_ref) <= key(d)
}
pub open spec fn offered_from<'b, T: Clone + Send + Sync>(m: int, h: HeapView<'b, T>, p: Arc<Point<'b, T>>, from: int) -> bool {
    forall|l: int, k: int| from <= l <= p.p_id.0 && 0 <= k < lists_of(h, p)[l]@.len() ==> offered(m, h, p, #[trigger] lists_of(h, p)[l]@[k])
}
pub open spec fn offered_all<'b, T: Clone + Send + Sync>(m: int, h: HeapView<'b, T>, p: Arc<Point<'b, T>>) -> bool { offered_from(m, h, p, 0) }
// all neighbours of the lists above l, and the first n of the list at l
pub open spec fn offered_up_to<'b, T: Clone + Send + Sync>(m: int, h: HeapView<'b, T>, p: Arc<Point<'b, T>>, l: int, n: int) -> bool {
    offered_from(m, h, p, l + 1) && forall|k: int| 0 <= k < n && k < lists_of(h, p)[l]@.len() ==> offered(m, h, p, #[trigger] lists_of(h, p)[l]@[k])
}
// what offering p to a list s makes of it
pub open spec fn back_step<'b, T: Clone + Send + Sync>(m: int, p: Arc<Point<'b, T>>, s: Seq<Arc<PointWithOrder<'b, T>>>, t: Seq<Arc<PointWithOrder<'b, T>>>, d: f32) -> bool {
    ||| t == s && exists|k: int| 0 <= k < s.len() && (#[trigger] s[k]).point_ref.p_id == p.p_id
    ||| exists|e: Arc<PointWithOrder<'b, T>>, u: Seq<Arc<PointWithOrder<'b, T>>>| #[trigger] perm_of(u, s.push(e)) && e.point_ref.p_id == p.p_id && e.dist_to_ref == d
            && (forall|i: int, j: int| 0 <= i <= j < u.len() ==> key((#[trigger] u[i]).dist_to_ref) <= key((#[trigger] u[j]).dist_to_ref))
            && t == (if u.len() > bound_at(m, p.p_id.0 as int) { u.drop_last() } else { u })
}
// ---- what is recorded for the new point at a layer up to its own (P18): what the search of that layer found, with width ef_construction, and
// select_neighbours chose among it, asked for as many as the layer may hold, with extension at the base layer only. `found` and `sel` name what
// search_layer and select_neighbours give for their arguments; units search and select say what that is.
pub uninterp spec fn found<'b, T: Clone + Send + Sync>(h: HeapView<'b, T>, q: Seq<T>, layer: int, ef: int, s: Seq<Arc<PointWithOrder<'b, T>>>) -> bool;
pub uninterp spec fn sel<'b, T: Clone + Send + Sync>(h: HeapView<'b, T>, q: Seq<T>, c: Seq<Arc<PointWithOrder<'b, T>>>, asked: int, extend: bool, layer: int, keep: bool, s: Seq<Arc<PointWithOrder<'b, T>>>) -> bool;
pub open spec fn flipped<'b, T: Clone + Send + Sync>(e: Arc<PointWithOrder<'b, T>>, f: Arc<PointWithOrder<'b, T>>) -> bool {
    e.point_ref == f.point_ref && key(e.dist_to_ref) == -key(f.dist_to_ref) && is_nan(e.dist_to_ref) == is_nan(f.dist_to_ref)
}
pub open spec fn negation_of<'b, T: Clone + Send + Sync>(r: Seq<Arc<PointWithOrder<'b, T>>>, s: Seq<Arc<PointWithOrder<'b, T>>>) -> bool {
    exists|o: Seq<Arc<PointWithOrder<'b, T>>>| #[trigger] perm_of(o, s) && r.len() == o.len() && forall|i: int| 0 <= i < r.len() ==> flipped(#[trigger] r[i], o[i])
}
impl<'b, T: Clone + Send + Sync, D: Distance<T> + Send + Sync> Hnsw<'b, T, D> {
    pub open spec fn recorded(&self, q: Seq<T>, l: int, s: Seq<Arc<PointWithOrder<'b, T>>>) -> bool {
        exists|h: HeapView<'b, T>, l0: int, ef: int, c0: Seq<Arc<PointWithOrder<'b, T>>>| #[trigger] found(h, q, l0, ef, c0) && l0 == l && ef == self.ef_construction && {
            ||| c0.len() == 0 && s.len() == 0
            ||| self.chosen_among(h, q, l, c0, s)
        }
    }
    pub open spec fn chosen_among(&self, h: HeapView<'b, T>, q: Seq<T>, l: int, c0: Seq<Arc<PointWithOrder<'b, T>>>, s: Seq<Arc<PointWithOrder<'b, T>>>) -> bool {
        exists|c1: Seq<Arc<PointWithOrder<'b, T>>>, asked: int, extend: bool, l1: int, keep: bool, ch: Seq<Arc<PointWithOrder<'b, T>>>|
            #[trigger] sel(h, q, c1, asked, extend, l1, keep, ch) && negation_of(c1, c0) && perm_of(s, ch)
            && asked == bound_at(self.max_nb_connection as int, l) && extend == (l == 0 && self.extend_candidates) && l1 == l && keep == self.keep_pruned
    }
    pub open spec fn recorded_from(&self, q: Seq<T>, v: Seq<Vec<Arc<PointWithOrder<'b, T>>>>, from: int, level: int) -> bool {
        forall|l: int| from <= l <= level ==> self.recorded(q, l, (#[trigger] v[l])@)
    }
}
