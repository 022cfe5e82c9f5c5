#![allow(unused)]
use vstd::prelude::*;
//@include pre_float.vrs
pub mod sp {
use vstd::prelude::*;
use std::sync::Arc;
use core::cmp::Ordering;
use super::fl::*;
verus! {
broadcast use {super::fl::ax_f32_cmp, super::fl::ax_f32_eq, super::fl::ax_f32_obeys, super::fl::ax_f32_zero};
//@include pre_std.vrs
//@include pre_lock_frozen.vrs
//@include types.vrs
//@include spec_search.vrs
}
}
pub mod lem {
use vstd::prelude::*;
use std::sync::Arc;
use super::fl::*;
use super::sp::*;
verus! {
//@include lem_search.vrs
}
}
pub mod code {
use vstd::prelude::*;
use std::sync::Arc;
use core::cmp::Ordering;
use super::fl::*;
use super::sp::*;
use super::lem::*;
verus! {
broadcast use {super::fl::ax_f32_cmp, super::fl::ax_f32_eq, super::fl::ax_f32_obeys, super::fl::ax_f32_zero, super::lem::lemma_push_has, super::lem::lemma_perm_has, super::lem::lemma_perm_dominated, super::lem::lemma_remove_has};

//@include fns_point.vrs
//@if P02
// the two filters of the crate, against what the property says they mean
pub trait ListFilter {
    spec fn sorted_list(&self) -> bool;
    spec fn member(&self, id: usize) -> bool;
    fn hnsw_filter(&self, id: &DataId) -> (r: bool) requires self.sorted_list() ensures r == self.member(*id);
}
impl ListFilter for Vec<usize> {
    open spec fn sorted_list(&self) -> bool { forall|i: int, j: int| 0 <= i <= j < self@.len() ==> self@[i] <= self@[j] }
    open spec fn member(&self, id: usize) -> bool { self@.contains(id) }
//@fn src/filter.rs FilterT for Vec::hnsw_filter [vis=none]
//@sub? self . binary_search ( id ) => vbinary_search(self, id)
//@endfn
}
pub trait PredFilter {
    spec fn total(&self) -> bool;
    spec fn says(&self, id: &DataId, r: bool) -> bool;
    fn hnsw_filter(&self, id: &DataId) -> (r: bool) requires self.total() ensures self.says(id, r);
}
impl<F> PredFilter for F
where
    F: Fn(&DataId) -> bool,
{
    open spec fn total(&self) -> bool { forall|id: &DataId| self.requires((id,)) }
    open spec fn says(&self, id: &DataId, r: bool) -> bool { self.ensures((id,), r) }
//@fn src/filter.rs FilterT for F::hnsw_filter [vis=none]
//@endfn
}
//@endif
impl<'b, T: Clone + Send + Sync> PointIndexation<'b, T> {
//@fn src/hnsw.rs PointIndexation::get_layer_nb_point
//@ret r
//@spec
    ensures r == (if layer < self.layers().len() { self.layers()[layer as int]@.len() } else { 0 })
//@endfn
}
impl<'b, T: Clone + Send + Sync, D: Distance<T> + Send + Sync> Hnsw<'b, T, D> {
//@fn src/hnsw.rs Hnsw::get_point_indexation
//@ret r
//@spec
    ensures *r == self.layer_indexed_points
//@endfn

//@fn src/hnsw.rs Hnsw::search_layer
//@attr #[verifier::exec_allows_no_decreases_clause]
//@attr #[verifier::rlimit(200)]
//@ret ret
//@spec
    requires self.wf(), ef >= 1 || filter.is_none(), self.stored(*entry_point), (layer as int) < self.layers().len(),
    ensures answers(self, point@, ret@, 1),
        ret@.len() <= ef || ret@.len() <= 1,
        self.layers()[layer as int]@.len() > 0 ==> ret@.len() >= 1,
//@if P02,P03
        forall|i: int| 0 <= i < ret@.len() ==> f_ok(filter, (#[trigger] ret@[i]).point_ref.origin_id) || (ret@.len() == 1 && ret@[0].point_ref == entry_point),
//@endif
//@if P03
        forall|i: int, k: int| 0 <= i < ret@.len() && 0 <= k < ret@[i].point_ref.nb(layer as int).len()
            && f_ok(filter, (#[trigger] ret@[i].point_ref.nb(layer as int)[k]).point_ref.origin_id)
            ==> dominated(self, point@, ret@, ef as int, *ret@[i].point_ref.nb(layer as int)[k].point_ref),
//@endif
//@if P02
        // fewer than ef results: everything allowed that links reach from the entry point has been found
        self.layers()[layer as int]@.len() > 0 && ef >= 2 && ret@.len() < ef ==> exists|v: Map<PointId, Arc<Point<'b, T>>>|
            #[trigger] closed(self, v, layer as int) && v.dom().contains(entry_point.p_id) && covers(v, ret@, filter),
//@endif
//@loop 1
    invariant
        self.wf(), ef >= 1 || filter.is_none(), self.stored(*entry_point), (layer as int) < self.layers().len(),
        sl_inv(self, point@, *entry_point, ef as int, layer as int, filter, visited_point_id@, candidate_points@, return_points@),
//@if P03
        forall|i: int| #![trigger return_points@[i]] 0 <= i < return_points@.len() ==> heap_has(candidate_points@, *return_points@[i].point_ref)
            || expanded(visited_point_id@, *return_points@[i].point_ref, layer as int, return_points@[i].point_ref.nb(layer as int).len() as int),
//@endif
//@if P02
        ef >= 2 && return_points@.len() < ef ==> forall|p: PointId| #![trigger visited_point_id@[p]] visited_point_id@.dom().contains(p) ==>
            heap_has(candidate_points@, *visited_point_id@[p]) || expanded(visited_point_id@, *visited_point_id@[p], layer as int, visited_point_id@[p].nb(layer as int).len() as int),
//@endif
//@if P19
    decreases room(visited_point_id@.dom()) + candidate_points@.len(),
//@endif
//@at loop-start 1
//@if P19
        broadcast use super::lem::lemma_room;
        let ghost m0 = room(visited_point_id@.dom()) + candidate_points@.len();
//@endif
//@loop 2 it
    invariant
//@if P19
        room(visited_point_id@.dom()) + candidate_points@.len() < m0,
//@endif
        self.wf(), ef >= 1 || filter.is_none(), self.stored(*entry_point), (layer as int) < self.layers().len(),
        self.stored(*c.point_ref),
        it.seq().len() == c.point_ref.nb(layer as int).len(), forall|k: int| 0 <= k < it.seq().len() ==> *it.seq()[k] == c.point_ref.nb(layer as int)[k],
        sl_inv(self, point@, *entry_point, ef as int, layer as int, filter, visited_point_id@, candidate_points@, return_points@),
        expanded(visited_point_id@, *c.point_ref, layer as int, it.index() as int),
//@if P03
        forall|i: int| #![trigger return_points@[i]] 0 <= i < return_points@.len() ==> heap_has(candidate_points@, *return_points@[i].point_ref)
            || return_points@[i].point_ref == c.point_ref
            || expanded(visited_point_id@, *return_points@[i].point_ref, layer as int, return_points@[i].point_ref.nb(layer as int).len() as int),
//@endif
//@if P02
        ef >= 2 && return_points@.len() < ef ==> forall|p: PointId| #![trigger visited_point_id@[p]] visited_point_id@.dom().contains(p) ==>
            heap_has(candidate_points@, *visited_point_id@[p]) || *visited_point_id@[p] == *c.point_ref
            || expanded(visited_point_id@, *visited_point_id@[p], layer as int, visited_point_id@[p].nb(layer as int).len() as int),
//@endif
//@if P02
//@at after-loop 1
        assert(ef >= 2 && return_points@.len() < ef ==> closed(self, visited_point_id@, layer as int) && covers(visited_point_id@, return_points@, filter));
//@endif
//@endfn

//@fn src/hnsw.rs Hnsw::search_filter
//@attr #[verifier::exec_allows_no_decreases_clause]
//@attr #[verifier::rlimit(100)]
//@sub? . as_ref ( ) . data => .data
//@sub? . as_ref ( ) . point_ref => .point_ref
//@sub? . as_ref ( ) . dist_to_ref => .dist_to_ref
//@sub? let mut $x = None ; => let mut $x: Option<Arc<Point<'b, T>>> = None;
//@ret ret
//@spec
    requires self.wf(),
    ensures search_post(self, data@, knbn as int, ef_arg as int, filter, ret@),
//@loop 1 it1
    invariant
        self.wf(), self.stored(*pivot), self.stored(*entry_point), self.layer_indexed_points.entry().is_some(),
        it1.seq().len() == entry_point.p_id.0,
//@loop 2 it2
    invariant
        self.wf(), self.stored(*pivot), self.stored(*entry_point), self.layer_indexed_points.entry().is_some(),
        it1.seq().len() == entry_point.p_id.0,
        0 <= layer < 16,
        it2.seq().len() == pivot.nb(layer as int).len(), forall|k: int| 0 <= k < it2.seq().len() ==> *it2.seq()[k] == pivot.nb(layer as int)[k],
        has_changed ==> new_pivot.is_some() && self.stored(*new_pivot->0),
//@loop 3
    invariant
        self.wf(), self.stored(*pivot), self.stored(*entry_point), self.layer_indexed_points.entry().is_some(),
        l <= entry_point.p_id.0, forall|j: int| 0 <= j < l ==> (#[trigger] self.layers()[j])@.len() == 0,
    ensures is_base(self, vbrk__1 as int),
//@if P19
    decreases entry_point.p_id.0 - l,
//@endif
//@closure 1 |$1: &Arc<PointWithOrder<'b, T>>| -> (o: Neighbour)
    ensures o.d_id == $1.point_ref.origin_id, o.distance == $1.dist_to_ref, o.p_id == $1.point_ref.p_id
//@at tail
//@if P02
        assert forall|p: Point<'b, T>| #![trigger heap_has(neighbours@, p)] heap_has(neighbours@, p) && tail__@.len() == neighbours@.len() implies answered(tail__@, p.p_id) by {
            let i = choose|i: int| 0 <= i < neighbours@.len() && *(#[trigger] neighbours@[i]).point_ref == p;
            assert(tail__@[i].p_id == p.p_id);
        }
//@endif
//@if P03
        assert forall|i: int, l: int, k: int| #![trigger tail__@[i], is_base(self, l), self.named(tail__@[i].p_id).nb(l)[k]]
            0 <= i < tail__@.len() && is_base(self, l) && 0 <= k < self.named(tail__@[i].p_id).nb(l).len() && f_ok(filter, self.named(tail__@[i].p_id).nb(l)[k].point_ref.origin_id)
            implies not_missed(self, data@, tail__@, knbn as int, *self.named(tail__@[i].p_id).nb(l)[k].point_ref) by {
            assert(l == layer_to_search);
            assert(at(neighbours@[i], self.named(tail__@[i].p_id)));
            let p = self.named(tail__@[i].p_id).nb(l)[k].point_ref;
            assert(dominated(self, data@, neighbours@, ef as int, *p));
            if heap_has(neighbours@, *p) {
                let m = choose|m: int| 0 <= m < neighbours@.len() && *(#[trigger] neighbours@[m]).point_ref == *p;
                if m < tail__@.len() { assert(tail__@[m].p_id == p.p_id); }
            }
        }
//@endif
//@endfn

//@fn src/hnsw.rs Hnsw::search_possible_filter
//@ret ret
//@spec
    requires self.wf(),
    ensures search_post(self, data@, knbn as int, ef_arg as int, filter, ret@),
//@endfn
//@fn src/hnsw.rs Hnsw::search
//@ret ret
//@spec
    requires self.wf(),
    ensures search_post(self, data@, knbn as int, ef_arg as int, None, ret@),
//@endfn
}
}
}
