impl LayerGenerator {
    // see unit level
    #[verifier::external_body]
    pub fn generate(&self) -> (r: usize) ensures r < self.maxlevel { unimplemented!() }
}
impl<'b, T: Clone + Send + Sync + 'b> PointData<'b, T> {
//@fn src/hnsw.rs PointData::new_v
//@ret r
//@spec
    ensures r@ == v@
//@endfn
}
impl<'b, T: Clone + Send + Sync> Point<'b, T> {
//@fn src/hnsw.rs Point::new
//@ret r
//@spec
    ensures r.data@ == v@, r.origin_id == origin_id, r.p_id == p_id, fresh(r)
//@loop 1 it
    invariant neighbours@.len() == it.index(), it.seq().len() == 16, empty_lists(neighbours@)
//@endfn
}
//@fn src/hnsw.rs from_positive_binaryheap_to_negative_binary_heap
//@ret r
//@attr #[verifier::exec_allows_no_decreases_clause]
//@spec
    requires forall|i: int| 0 <= i < old(positive_heap)@.len() ==> !is_nan((#[trigger] old(positive_heap)@[i]).dist_to_ref) && key(old(positive_heap)@[i].dist_to_ref) >= 0
    // the same points with negated distances
    ensures negation_of(r@, old(positive_heap)@), final(positive_heap)@ == old(positive_heap)@
//@loop 1 it
    invariant
        negative_heap@.len() == it.index(), perm_of(derefs(it.seq()), positive_heap@), positive_heap@ == old(positive_heap)@,
        forall|i: int| 0 <= i < positive_heap@.len() ==> !is_nan((#[trigger] positive_heap@[i]).dist_to_ref) && key(positive_heap@[i].dist_to_ref) >= 0,
        forall|i: int| 0 <= i < negative_heap@.len() ==> flipped(#[trigger] negative_heap@[i], derefs(it.seq())[i]),
//@at loop-start 1
    assert(derefs(it.seq())[it.index() as int] == *p);
//@endfn
impl<'b, T: Clone + Send + Sync> PointIndexation<'b, T> {
//@fn src/hnsw.rs PointIndexation::generate_new_point
//@sub? data . to_vec ( ) => vto_vec(data)
//@ret r
//@spec
    requires self.fits(old(hist__)@), !old(hist__)@.private
    ensures stored_new(old(hist__)@, final(hist__)@, r.0, data@, origin_id)
//@endfn
//@fn src/hnsw.rs PointIndexation::check_entry_point
//@spec
    requires self.fits(old(hist__)@), old(hist__)@.new == Some(*new_point), if old(hist__)@.private { publishable(old(hist__)@) } else { okp0(old(hist__)@, **new_point) }
    ensures quiet(old(hist__)@, final(hist__)@), final(hist__)@.floor >= new_point.p_id.0,
//@endfn
}
impl<'b, T: Clone + Send + Sync, D: Distance<T> + Send + Sync> Hnsw<'b, T, D> {
//@fn src/hnsw.rs Hnsw::get_max_nb_connection
//@ret r
//@spec
    requires self.max_nb_connection <= 256
    ensures r <= self.max_nb_connection
//@endfn
//@fn src/hnsw.rs Hnsw::search_layer
//@attr #[verifier::exec_allows_no_decreases_clause]
//@attr #[verifier::rlimit(100)]
//@ret ret
//@spec
    requires self.fits(old(hist__)@), filter.is_none(), okp(old(hist__)@, *entry_point), (layer as int) < old(hist__)@.nlayers
    ensures final(hist__)@ == old(hist__)@, all_ok(old(hist__)@, point@, 1, ret@), distinct(ret@), ret@.len() <= ef || ret@.len() <= 1,
        old(hist__)@.filled.contains(layer as int) ==> ret@.len() >= 1,
//@loop 1
    invariant
        hist__@ == old(hist__)@, self.fits(hist__@), filter.is_none(), (layer as int) < hist__@.nlayers,
        all_ok(hist__@, point@, 1, return_points@), distinct(return_points@), in_dom(visited_point_id@, return_points@), return_points@.len() >= 1, return_points@.len() <= ef || return_points@.len() == 1,
        all_ok(hist__@, point@, -1, candidate_points@), in_dom(visited_point_id@, candidate_points@), map_ok(hist__@, visited_point_id@),
//@loop 2 it
    invariant
        hist__@ == old(hist__)@, self.fits(hist__@), filter.is_none(), (layer as int) < hist__@.nlayers,
        forall|k: int| 0 <= k < it.seq().len() ==> okp(hist__@, *(#[trigger] it.seq()[k]).point_ref),
        all_ok(hist__@, point@, 1, return_points@), distinct(return_points@), in_dom(visited_point_id@, return_points@), return_points@.len() >= 1, return_points@.len() <= ef || return_points@.len() == 1,
        all_ok(hist__@, point@, -1, candidate_points@), in_dom(visited_point_id@, candidate_points@), map_ok(hist__@, visited_point_id@),
//@endfn
//@fn src/hnsw.rs Hnsw::select_neighbours
//@attr #[verifier::exec_allows_no_decreases_clause]
//@attr #[verifier::rlimit(100)]
//@spec
    requires self.fits(old(hist__)@), layer < 16, all_ok(old(hist__)@, data@, -1, old(candidates)@), distinct(old(candidates)@)
    ensures final(hist__)@ == old(hist__)@, all_ok(old(hist__)@, data@, 1, final(neighbours_vec)@), distinct(final(neighbours_vec)@), final(neighbours_vec)@.len() <= nb_neighbours_asked,
        old(candidates)@.len() >= 1 && nb_neighbours_asked >= 1 ==> final(neighbours_vec)@.len() >= 1,
//@at start
    let ghost cand0 = candidates@;
//@loop 1
    invariant
        hist__@ == old(hist__)@, all_ok(hist__@, data@, -1, candidates@), distinct(candidates@), all_ok(hist__@, data@, 1, neighbours_vec@), distinct(neighbours_vec@), apart(neighbours_vec@, candidates@),
        neighbours_vec@.len() + candidates@.len() == cand0.len(),
//@loop 2 it2
    invariant
        candidates@ == cand0, perm_of(derefs(it2.seq()), cand0), all_ok(hist__@, data@, -1, candidates@), map_ok(hist__@, candidates_set@),
        forall|i: int| 0 <= i < it2.index() ==> candidates_set@.dom().contains((#[trigger] derefs(it2.seq())[i]).point_ref.p_id),
//@at loop-start 2
    assert(derefs(it2.seq())[it2.index() as int] == *c);
//@loop 3 it3
    invariant
        hist__@ == old(hist__)@, self.fits(hist__@), layer < 16, candidates@ == cand0, map_ok(hist__@, candidates_set@), map_ok(hist__@, new_candidates_set@), map_entries(it3.seq(), candidates_set@),
        forall|p: PointId| #[trigger] new_candidates_set@.dom().contains(p) ==> !candidates_set@.dom().contains(p),
//@at loop-start 3
    assert(candidates_set@.dom().contains(it3.seq()[it3.index() as int].0));
//@loop 4 it4
    invariant
        hist__@ == old(hist__)@, self.fits(hist__@), layer < 16, candidates@ == cand0, map_ok(hist__@, candidates_set@), map_ok(hist__@, new_candidates_set@), map_entries(it3.seq(), candidates_set@),
        forall|p: PointId| #[trigger] new_candidates_set@.dom().contains(p) ==> !candidates_set@.dom().contains(p),
        forall|k: int| 0 <= k < it4.seq().len() ==> okp(hist__@, *(#[trigger] it4.seq()[k]).point_ref),
//@loop 5 it5
    invariant
        hist__@ == old(hist__)@, self.fits(hist__@), map_ok(hist__@, new_candidates_set@), map_entries(it5.seq(), new_candidates_set@),
        candidates@.len() == cand0.len() + it5.index(), forall|k: int| 0 <= k < cand0.len() ==> #[trigger] candidates@[k] == cand0[k],
        forall|k: int| #![trigger candidates@[k]] cand0.len() <= k < candidates@.len() ==> candidates@[k].point_ref.p_id == it5.seq()[k - cand0.len()].0,
        all_ok(hist__@, data@, -1, candidates@), distinct(candidates@),
        forall|p: PointId| #[trigger] new_candidates_set@.dom().contains(p) ==> forall|i: int| 0 <= i < cand0.len() ==> (#[trigger] cand0[i]).point_ref.p_id != p,
//@at loop-start 5
    assert(new_candidates_set@.dom().contains(it5.seq()[it5.index() as int].0));
//@loop 6
    invariant
        hist__@ == old(hist__)@, self.fits(hist__@), all_ok(hist__@, data@, -1, candidates@), distinct(candidates@), all_ok(hist__@, data@, 1, neighbours_vec@), distinct(neighbours_vec@), apart(neighbours_vec@, candidates@),
        all_ok(hist__@, data@, -1, discarded_points@), distinct(discarded_points@), apart(discarded_points@, candidates@), apart(neighbours_vec@, discarded_points@),
        neighbours_vec@.len() <= nb_neighbours_asked, cand0.len() >= 1 && nb_neighbours_asked >= 1 ==> neighbours_vec@.len() >= 1 || candidates@.len() >= 1,
//@closure 1 |$1: &Arc<PointWithOrder<'b, T>>| -> (o: bool)
//@loop 7
    invariant
        hist__@ == old(hist__)@, all_ok(hist__@, data@, 1, neighbours_vec@), distinct(neighbours_vec@),
        all_ok(hist__@, data@, -1, discarded_points@), distinct(discarded_points@), apart(neighbours_vec@, discarded_points@),
        neighbours_vec@.len() <= nb_neighbours_asked, cand0.len() >= 1 && nb_neighbours_asked >= 1 ==> neighbours_vec@.len() >= 1,
//@endfn
//@fn src/hnsw.rs Hnsw::reverse_update_neighborhood_simple
//@sub? new_point : Arc < Point < T > > => new_point: Arc<Point<'b, T>>
//@spec
    requires self.fits(old(hist__)@), old(hist__)@.new == Some(new_point), (new_point.p_id.0 as int) < old(hist__)@.nlayers, bound_to(*new_point),
        if old(hist__)@.private { publishable(old(hist__)@) } else { okp0(old(hist__)@, *new_point) }
    ensures quiet(old(hist__)@, final(hist__)@), if final(hist__)@.private { publishable(final(hist__)@) } else { okp0(final(hist__)@, *new_point) }
//@loop 1 it1
    invariant
        self.fits(hist__@), quiet(old(hist__)@, hist__@), hist__@.new == Some(new_point), (new_point.p_id.0 as int) < hist__@.nlayers, bound_to(*new_point), level == new_point.p_id.0,
        if hist__@.private { publishable(hist__@) } else { okp0(hist__@, *new_point) },
//@loop 2 it2
    invariant
        self.fits(hist__@), quiet(old(hist__)@, hist__@), hist__@.new == Some(new_point), (new_point.p_id.0 as int) < hist__@.nlayers, bound_to(*new_point), level == new_point.p_id.0,
        if hist__@.private { publishable(hist__@) } else { okp0(hist__@, *new_point) },
        forall|k: int| 0 <= k < it2.seq().len() ==> ent(old(hist__)@, new_point.data@, new_point.p_id, *#[trigger] it2.seq()[k]),
//@closure 1 |$1: &Arc<PointWithOrder<'b, T>>| -> (o: bool)
    ensures o == ($1.point_ref.p_id == new_point.p_id)
//@endfn
//@fn src/hnsw.rs Hnsw::insert_slice
//@attr #[verifier::exec_allows_no_decreases_clause]
//@spec
    requires self.fits(old(hist__)@), !old(hist__)@.private
    ensures inserted(old(hist__)@, final(hist__)@, data_with_id.0@, data_with_id.1)
//@loop 1 it1
    invariant
        self.fits(hist__@), stored_keeping(old(hist__)@, hist__@, new_point, data@, origin_id), level == new_point.p_id.0, max_level_observed < 16, (max_level_observed as int) < hist__@.nlayers,
        it1.seq().len() == (if max_level_observed > level { max_level_observed - level } else { 0 }),
        lists_ok(hist__@, new_point.data@, new_point.p_id, hist__@.lists), forall|i: int| 0 <= i < 16 && i <= max_level_observed - it1.index() ==> (#[trigger] nbl(hist__@.lists, i)).len() == 0,
        enter_point_copy.is_some(), okp(hist__@, *enter_point_copy->0),
//@loop 2 it2
    invariant
        self.fits(hist__@), stored_keeping(old(hist__)@, hist__@, new_point, data@, origin_id), level == new_point.p_id.0, it2.seq().len() == level + 1,
        lists_ok(hist__@, new_point.data@, new_point.p_id, hist__@.lists), it2.index() > 0 ==> nbl(hist__@.lists, level as int).len() > 0,
        enter_point_copy.is_some(), okp(hist__@, *enter_point_copy->0),
//@endfn
//@fn src/hnsw.rs Hnsw::insert
//@spec
    requires self.fits(old(hist__)@), !old(hist__)@.private
    ensures inserted(old(hist__)@, final(hist__)@, datav_with_id.0@, datav_with_id.1)
//@endfn
//@if par
//@fn src/hnsw.rs Hnsw::parallel_insert
//@spec
    requires self.usable()
    ensures exists|o: Seq<usize>| vperm(o, datas@.len() as int) && #[trigger] final(hist__)@ == old(hist__)@ + vec_items(datas@, o, datas@.len() as int)
//@par 1
    invariant
        self.usable(), vperm(vord__1@, datas@.len() as int), vpar__1@ == datas@, hist__@ =~= old(hist__)@ + vec_items(datas@, vord__1@, k__1 as int)
//@at par-start 1
    let ghost log0 = hist__@;
    let tracked log__ = &mut *hist__;
    let Tracked(worker__) = vworker(self);
    let tracked hist__ = worker__;
    let ghost g0 = hist__@;
    let ghost item0 = datas@[vord__1@[k__1 as int] as int];
//@at par-end 1
    proof { log_insert(g0, hist__, item0.0@, item0.1, log__); }
//@endfn
//@fn src/hnsw.rs Hnsw::parallel_insert_slice
//@spec
    requires self.usable()
    ensures exists|o: Seq<usize>| vperm(o, datas@.len() as int) && #[trigger] final(hist__)@ == old(hist__)@ + sl_items(datas@, o, datas@.len() as int)
//@par 1
    invariant
        self.usable(), vperm(vord__1@, datas@.len() as int), vpar__1@ == datas@, hist__@ =~= old(hist__)@ + sl_items(datas@, vord__1@, k__1 as int)
//@at par-start 1
    let ghost log0 = hist__@;
    let tracked log__ = &mut *hist__;
    let Tracked(worker__) = vworker(self);
    let tracked hist__ = worker__;
    let ghost g0 = hist__@;
    let ghost item0 = datas@[vord__1@[k__1 as int] as int];
//@at par-end 1
    proof { log_insert(g0, hist__, item0.0@, item0.1, log__); }
//@endfn
//@endif
}
