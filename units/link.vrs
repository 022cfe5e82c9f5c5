#![allow(unused)]
use vstd::prelude::*;
//@mode conc
//@ghosttype &mut Heap<'b, T>
//@ghostarg read:&Heap<'b,T> write:&Heap<'b,T> search_layer:&Heap<'b,T> select_neighbours:&Heap<'b,T> reverse_update_neighborhood_simple check_entry_point generate_new_point insert_slice insert
//@include pre_float.vrs
pub mod sp {
use vstd::prelude::*;
use std::sync::Arc;
use core::cmp::Ordering;
use super::fl::*;
verus! {
broadcast use {super::fl::ax_f32_cmp, super::fl::ax_f32_eq, super::fl::ax_f32_obeys, super::fl::ax_f32_zero};
//@include pre_std.vrs
//@include pre_lock_one.vrs
//@include types.vrs

//@const src/hnsw.rs NB_LAYER_MAX
//@include spec_link.vrs
}
}
pub mod lem {
use vstd::prelude::*;
use std::sync::Arc;
use super::fl::*;
use super::sp::*;
verus! {
//@include lem_link.vrs
}
}
pub mod code {
use vstd::prelude::*;
use std::sync::Arc;
use core::cmp::Ordering;
use super::fl::*;
use super::sp::*;
use super::lem::*;
verus! {
broadcast use {super::fl::ax_f32_cmp, super::fl::ax_f32_eq, super::fl::ax_f32_obeys, super::fl::ax_f32_zero};
//@include fns_point.vrs
impl<'b, T: Clone + Send + Sync> PointIndexation<'b, T> {
    // what unit insert shows of it: the point is stored with empty lists, no other list is written
    #[verifier::external_body]
    fn generate_new_point(&self, data: &[T], origin_id: usize, Tracked(hist__): Tracked<&mut Heap<'b, T>>) -> (r: (Arc<Point<'b, T>>, usize))
        ensures r.0.p_id.0 < 16, r.0.data@ == data@, okq(final(hist__)@, r.0), empty_lists(lists_of(final(hist__)@, r.0)),
            others_kept(old(hist__)@, final(hist__)@, r.0), final(hist__)@.entries == old(hist__)@.entries,
            final(hist__)@.new == r.0
    { unimplemented!() }
    // likewise: writes no list
    #[verifier::external_body]
    fn check_entry_point(&self, new_point: &Arc<Point<'b, T>>, Tracked(hist__): Tracked<&mut Heap<'b, T>>)
        ensures final(hist__)@.lists == old(hist__)@.lists, final(hist__)@.owner == old(hist__)@.owner, final(hist__)@.new == old(hist__)@.new
    { unimplemented!() }
}
// see units select and insert
#[verifier::external_body]
pub fn from_positive_binaryheap_to_negative_binary_heap<'b, T: Send + Sync + Clone>(positive_heap: &mut BinaryHeap<Arc<PointWithOrder<'b, T>>>) -> (r: BinaryHeap<Arc<PointWithOrder<'b, T>>>)
    ensures negation_of(r@, old(positive_heap)@), forall|h: HeapView<'b, T>| #[trigger] all_okq(h, old(positive_heap)@) ==> all_okq(h, r@)
{ unimplemented!() }
impl<'b, T: Clone + Send + Sync, D: Distance<T> + Send + Sync> Hnsw<'b, T, D> {
//@fn src/hnsw.rs Hnsw::get_max_nb_connection
//@ret r
//@spec
    requires self.max_nb_connection <= 256
    ensures r <= self.max_nb_connection
//@endfn
    // see unit insert: stored points, at most one when one is asked for
    #[verifier::external_body]
    fn search_layer(&self, point: &[T], entry_point: Arc<Point<'b, T>>, ef: usize, layer: u8, filter: Option<&dyn FilterT>, Tracked(hist__): Tracked<&Heap<'b, T>>) -> (ret: BinaryHeap<Arc<PointWithOrder<'b, T>>>)
        requires okq(hist__@, entry_point)
        ensures found(hist__@, point@, layer as int, ef as int, ret@), all_okq(hist__@, ret@), ret@.len() <= ef || ret@.len() <= 1
    { unimplemented!() }
    // see units select and insert: among the candidates found and their neighbours
    #[verifier::external_body]
    fn select_neighbours(&self, data: &[T], candidates: &mut BinaryHeap<Arc<PointWithOrder<'b, T>>>, nb_neighbours_asked: usize, extend_candidates_asked: bool, layer: u8, keep_pruned: bool, neighbours_vec: &mut Vec<Arc<PointWithOrder<'b, T>>>, Tracked(hist__): Tracked<&Heap<'b, T>>)
        requires all_okq(hist__@, old(candidates)@), old(neighbours_vec)@.len() == 0
        ensures all_okq(hist__@, final(neighbours_vec)@),
            sel(hist__@, data@, old(candidates)@, nb_neighbours_asked as int, extend_candidates_asked, layer as int, keep_pruned, final(neighbours_vec)@)
    { unimplemented!() }
//@fn src/hnsw.rs Hnsw::reverse_update_neighborhood_simple
//@sub? new_point : Arc < Point < T > > => new_point: Arc<Point<'b, T>>
//@spec
    requires self.max_nb_connection <= 256, new_point.p_id.0 < 16, okq(old(hist__)@, new_point), old(hist__)@.new == new_point, chosen_okq(old(hist__)@, new_point)
    // every neighbour the new point chose has been offered a link back, and its own lists are as they were
    ensures offered_all(self.max_nb_connection as int, final(hist__)@, new_point), lists_of(final(hist__)@, new_point) == lists_of(old(hist__)@, new_point),
        chosen_okq(final(hist__)@, new_point), final(hist__)@.new == new_point
//@loop 1 it1
    invariant
        self.max_nb_connection <= 256, new_point.p_id.0 < 16, level == new_point.p_id.0, hist__@.new == new_point, it1.seq().len() == level + 1,
        okq(hist__@, new_point), chosen_okq(hist__@, new_point), lists_of(hist__@, new_point) == lists_of(old(hist__)@, new_point),
        offered_from(self.max_nb_connection as int, hist__@, new_point, level + 1 - it1.index()),
//@loop 2 it2
    invariant
        self.max_nb_connection <= 256, new_point.p_id.0 < 16, level == new_point.p_id.0, hist__@.new == new_point, 0 <= l <= level, l == level - it1.index(),
        okq(hist__@, new_point), chosen_okq(hist__@, new_point), lists_of(hist__@, new_point) == lists_of(old(hist__)@, new_point),
        it2.seq().len() == lists_of(hist__@, new_point)[l as int]@.len(),
        forall|k: int| 0 <= k < it2.seq().len() ==> *(#[trigger] it2.seq()[k]) == lists_of(hist__@, new_point)[l as int]@[k],
        offered_up_to(self.max_nb_connection as int, hist__@, new_point, l as int, it2.index() as int),
//@at loop-start 2
    let ghost h1 = hist__@;
    let ghost q1 = lists_of(h1, new_point)[l as int]@[it2.index() as int];
    assert(*q == q1);
    assert(okq(h1, tgt(q1)));
    assert(offered_up_to(self.max_nb_connection as int, h1, new_point, l as int, it2.index() as int));
//@at loop-end 2
    proof {
        let m = self.max_nb_connection as int;
        let lv = new_point.p_id.0 as int;
        if new_point.p_id != q1.point_ref.p_id {
            let s = lists_of(h1, tgt(q1))[lv]@;
            let t = lists_of(hist__@, tgt(q1))[lv]@;
            assert(back_step(m, new_point, s, t, q1.dist_to_ref));
            lemma_offered(m, h1, hist__@, new_point, q1, l as int, it2.index() as int);
        }
    }
//@closure 1 |$1: &Arc<PointWithOrder<'b, T>>| -> (o: bool)
    ensures o == ($1.point_ref.p_id == new_point.p_id)
//@endfn
//@fn src/hnsw.rs Hnsw::insert_slice
//@spec
    requires self.max_nb_connection <= 256, entry_okq(&self.layer_indexed_points, old(hist__)@)
    ensures chosen_okq(final(hist__)@, final(hist__)@.new), offered_all(self.max_nb_connection as int, final(hist__)@, final(hist__)@.new),
        // the first point of all gets no list; any other has at each layer up to its own what was chosen for it there
        old(hist__)@.entries[self.layer_indexed_points.entry_point.id()].is_some() ==> self.recorded_from(data_with_id.0@, lists_of(final(hist__)@, final(hist__)@.new), 0, final(hist__)@.new.p_id.0 as int)
//@at before 1 if enter_point_copy
    assert(hist__@.new == new_point);
    assert(chosen_okq(hist__@, new_point));
    proof {
        let e = hist__@.entries[self.layer_indexed_points.entry_point.id()];
        if e.is_some() {
            assert(okq(old(hist__)@, e->0));
            assert(e->0.neighbours.id() != new_point.neighbours.id());
            assert(lists_of(hist__@, e->0) == lists_of(old(hist__)@, e->0));
            assert(hist__@.owner[e->0.neighbours.id()] == e->0.p_id);
            assert(okq(hist__@, e->0));
        }
    }
//@loop 1 it1
    invariant
        self.max_nb_connection <= 256, new_point.p_id.0 < 16, level == new_point.p_id.0, hist__@.new == new_point, max_level_observed < 16,
        okq(hist__@, new_point), chosen_okq(hist__@, new_point), enter_point_copy.is_some(), okq(hist__@, enter_point_copy->0),
        keep_pruned == self.keep_pruned, data@ == data_with_id.0@, forall|l2: int| 0 <= l2 <= level ==> (#[trigger] lists_of(hist__@, new_point)[l2])@.len() == 0,
//@loop 2 it2
    invariant
        self.max_nb_connection <= 256, new_point.p_id.0 < 16, level == new_point.p_id.0, hist__@.new == new_point, it2.seq().len() == level + 1,
        okq(hist__@, new_point), chosen_okq(hist__@, new_point), enter_point_copy.is_some(), okq(hist__@, enter_point_copy->0),
        keep_pruned == self.keep_pruned, data@ == data_with_id.0@, self.recorded_from(data@, lists_of(hist__@, new_point), level + 1 - it2.index(), level as int),
        forall|l2: int| 0 <= l2 <= level - it2.index() ==> (#[trigger] lists_of(hist__@, new_point)[l2])@.len() == 0,
//@endfn
//@fn src/hnsw.rs Hnsw::insert
//@spec
    requires self.max_nb_connection <= 256, entry_okq(&self.layer_indexed_points, old(hist__)@)
    ensures chosen_okq(final(hist__)@, final(hist__)@.new), offered_all(self.max_nb_connection as int, final(hist__)@, final(hist__)@.new),
        // the first point of all gets no list; any other has at each layer up to its own what was chosen for it there
        old(hist__)@.entries[self.layer_indexed_points.entry_point.id()].is_some() ==> self.recorded_from(datav_with_id.0@, lists_of(final(hist__)@, final(hist__)@.new), 0, final(hist__)@.new.p_id.0 as int)
//@endfn
}
}
}
