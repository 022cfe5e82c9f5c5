#![allow(unused)]
use vstd::prelude::*;
//@include pre_float.vrs
pub mod sp {
use vstd::prelude::*;
use std::sync::Arc;
use core::cmp::Ordering;
use super::fl::*;
verus! {
broadcast use {super::fl::ax_f32_cmp, super::fl::ax_f32_eq, super::fl::ax_f32_obeys, super::fl::ax_f32_zero};
//@include pre_std.vrs
//@include pre_lock_frozen.vrs
//@include types.vrs
//@include spec_index.vrs
//@include spec_select.vrs
}
}
pub mod lem {
use vstd::prelude::*;
use std::sync::Arc;
use super::fl::*;
use super::sp::*;
verus! {
//@include lem_select.vrs
}
}
pub mod code {
use vstd::prelude::*;
use std::sync::Arc;
use core::cmp::Ordering;
use super::fl::*;
use super::sp::*;
use super::lem::*;
verus! {
broadcast use {super::fl::ax_f32_cmp, super::fl::ax_f32_eq, super::fl::ax_f32_obeys, super::fl::ax_f32_zero, super::lem::lemma_extension};
//@include fns_point.vrs
//@fn src/hnsw.rs from_positive_binaryheap_to_negative_binary_heap
//@ret r
//@attr #[verifier::exec_allows_no_decreases_clause]
//@spec
    requires forall|i: int| 0 <= i < old(positive_heap)@.len() ==> !is_nan((#[trigger] old(positive_heap)@[i]).dist_to_ref) && key(old(positive_heap)@[i].dist_to_ref) >= 0
    // the same points with negated distances
    ensures exists|o: Seq<Arc<PointWithOrder<'b, T>>>| #[trigger] perm_of(o, old(positive_heap)@) && negated(r@, o), final(positive_heap)@ == old(positive_heap)@
//@loop 1 it
    invariant
        negative_heap@.len() == it.index(), perm_of(derefs(it.seq()), positive_heap@), positive_heap@ == old(positive_heap)@,
        forall|i: int| 0 <= i < positive_heap@.len() ==> !is_nan((#[trigger] positive_heap@[i]).dist_to_ref) && key(positive_heap@[i].dist_to_ref) >= 0,
        forall|i: int| 0 <= i < negative_heap@.len() ==> flipped(#[trigger] negative_heap@[i], derefs(it.seq())[i]),
//@at loop-start 1
    assert(derefs(it.seq())[it.index() as int] == *p);
//@endfn
impl<'b, T: Clone + Send + Sync, D: Distance<T> + Send + Sync> Hnsw<'b, T, D> {
//@fn src/hnsw.rs Hnsw::select_neighbours
//@attr #[verifier::exec_allows_no_decreases_clause]
//@attr #[verifier::rlimit(100)]
//@spec
    requires self.wf(), layer < 16, cand_ok(self, data@, old(candidates)@)
    ensures
        exists|ext: Seq<Arc<PointWithOrder<'b, T>>>, c: Seq<Arc<PointWithOrder<'b, T>>>, rest: Seq<Arc<PointWithOrder<'b, T>>>, dc: Seq<Arc<PointWithOrder<'b, T>>>, drest: Seq<Arc<PointWithOrder<'b, T>>>|
           selection(self, data@, old(candidates)@, nb_neighbours_asked as int, extend_candidates_asked, layer as int, keep_pruned, final(neighbours_vec)@, ext, c, rest, dc, drest),
        chosen_ok(self, data@, final(neighbours_vec)@),
        final(neighbours_vec)@.len() <= nb_neighbours_asked,
//@at start
    let ghost cand0 = candidates@;
    let ghost mut gc: Seq<Arc<PointWithOrder<'b, T>>> = Seq::empty();
    let ghost mut gext: Seq<Arc<PointWithOrder<'b, T>>> = Seq::empty();
    let ghost mut gdc: Seq<Arc<PointWithOrder<'b, T>>> = Seq::empty();
    proof { lemma_split_start(cand0); }
//@loop 1
    invariant
        self.wf(), all_ok(self, data@, -1, candidates@), distinct(candidates@), all_ok(self, data@, -1, gc), distinct(gc), apart(gc, candidates@),
        split(cand0, gc, candidates@), gc.len() + candidates@.len() == cand0.len(), negated(neighbours_vec@, gc),
//@if P19
    decreases candidates@.len(),
//@endif
//@at loop-start 1
    let ghost b1 = candidates@;
//@at loop-end 1
    proof {
        let i = choose|i: int| 0 <= i < b1.len() && p == #[trigger] b1[i] && candidates@ == b1.remove(i);
        lemma_split_step(cand0, gc, b1, i);
        gc = gc.push(p);
    }
//@at after-loop 1
    assert(candidates@ =~= Seq::empty());
    assert(selection(self, data@, cand0, nb_neighbours_asked as int, extend_candidates_asked, layer as int, keep_pruned, neighbours_vec@, Seq::empty(), gc, Seq::empty(), Seq::empty(), Seq::empty()));
//@loop 2 it2
    invariant
        candidates@ == cand0, perm_of(derefs(it2.seq()), cand0),
        forall|i: int| 0 <= i < it2.index() ==> candidates_set@.dom().contains((#[trigger] derefs(it2.seq())[i]).point_ref.p_id),
        forall|p: PointId| #[trigger] candidates_set@.dom().contains(p) ==> heap_has(cand0, *candidates_set@[p]) && candidates_set@[p].p_id == p,
//@at loop-start 2
    let ghost e2 = *c;
    assert(derefs(it2.seq())[it2.index() as int] == *c);
//@loop 3 it3
    invariant
        self.wf(), layer < 16, candidates@ == cand0, cand_ok(self, data@, cand0), set_of(candidates_set@, cand0), map_entries(it3.seq(), candidates_set@),
        ext_set(self, new_candidates_set@, candidates_set@, cand0, layer as int),
        forall|i: int, m: int| 0 <= i < it3.index() && 0 <= m < it3.seq()[i].1.nb(layer as int).len() ==> in_either(candidates_set@, new_candidates_set@, (#[trigger] it3.seq()[i].1.nb(layer as int)[m]).point_ref.p_id),
//@at loop-start 3
    assert(candidates_set@.dom().contains(it3.seq()[it3.index() as int].0));
//@loop 4 it4
    invariant
        self.wf(), layer < 16, candidates@ == cand0, cand_ok(self, data@, cand0), set_of(candidates_set@, cand0), map_entries(it3.seq(), candidates_set@), 0 <= it3.index() < it3.seq().len(),
        ext_set(self, new_candidates_set@, candidates_set@, cand0, layer as int),
        forall|i: int, m: int| 0 <= i < it3.index() && 0 <= m < it3.seq()[i].1.nb(layer as int).len() ==> in_either(candidates_set@, new_candidates_set@, (#[trigger] it3.seq()[i].1.nb(layer as int)[m]).point_ref.p_id),
        candidates_set@.dom().contains(it3.seq()[it3.index() as int].0), *p_point == it3.seq()[it3.index() as int].1,
        it4.seq().len() == p_point.nb(layer as int).len(), forall|k: int| 0 <= k < it4.seq().len() ==> *(#[trigger] it4.seq()[k]) == p_point.nb(layer as int)[k],
        forall|m: int| 0 <= m < it4.index() ==> in_either(candidates_set@, new_candidates_set@, (#[trigger] p_point.nb(layer as int)[m]).point_ref.p_id),
//@at after-loop 3
    assert(covered(cand0, candidates_set@, new_candidates_set@, layer as int)) by {
        assert forall|i: int, m: int| 0 <= i < cand0.len() && 0 <= m < cand0[i].point_ref.nb(layer as int).len() implies in_either(candidates_set@, new_candidates_set@, (#[trigger] cand0[i].point_ref.nb(layer as int)[m]).point_ref.p_id) by {
            assert(candidates_set@.dom().contains(cand0[i].point_ref.p_id));
            assert(candidates_set@[cand0[i].point_ref.p_id] == cand0[i].point_ref);
        }
    }
//@loop 5 it5
    invariant
        self.wf(), layer < 16, cand_ok(self, data@, cand0), candidates@ == cand0 + gext, gext.len() == it5.index(),
        ext_step(self, data@, cand0, candidates_set@, new_candidates_set@, it5.seq(), gext, layer as int),
//@at loop-start 5
    let ghost b5 = it5.seq()[it5.index() as int];
    assert(new_candidates_set@.dom().contains(b5.0));
//@at loop-end 5
    proof { gext = gext.push(candidates@.last()); }
//@loop 6
    invariant
        cand_ok(self, data@, cand0), !(cand0.len() <= nb_neighbours_asked && !extend_candidates_asked), candidates1 == cand0 + gext,
        if extend_candidates_asked && cand0.len() <= nb_neighbours_asked { extension(self, data@, cand0, gext, layer as int) } else { gext.len() == 0 },
        self.wf(), all_ok(self, data@, -1, candidates@), distinct(candidates@), all_ok(self, data@, -1, gc), distinct(gc), apart(gc, candidates@),
        split(candidates1, gc, candidates@), nearest_first(gc), not_nearer(gc, candidates@),
        negated(neighbours_vec@, kept(self, gc)), kept(self, gc).len() <= nb_neighbours_asked,
        keep_pruned ==> discarded_points@ == pruned(self, gc),
//@if P19
    decreases candidates@.len(),
//@endif
//@at before 1 if e_to_insert
    proof {
        let kb = kept(self, gb);
        assert forall|i: int| 0 <= i < kb.len() implies neighbours_vec@[i].point_ref == (#[trigger] kb[i]).point_ref by { assert(flipped(neighbours_vec@[i], kb[i])); }
        if blocked(self, kb, e_p) {
            let i = choose|i: int| 0 <= i < kb.len() && key(self.dist(e_p.point_ref.data@, *(#[trigger] kb[i]).point_ref)) <= -key(e_p.dist_to_ref);
            assert(vk(i));
            assert(flipped(neighbours_vec@[i], kb[i]));
        }
    }
//@at before-loop 6
    let ghost candidates1 = candidates@;
    proof { assert(cand0 + Seq::<Arc<PointWithOrder<'b, T>>>::empty() =~= cand0); lemma_split_start(candidates1); }
//@at loop-start 6
    let ghost b6 = candidates@;
//@at loop-end 6
    assert(keep_pruned ==> discarded_points@ =~= pruned(self, gc));
//@at before 1 let mut e_to_insert
    let ghost gb = gc;
    proof {
        let i = choose|i: int| 0 <= i < b6.len() && e_p == #[trigger] b6[i] && candidates@ == b6.remove(i);
        lemma_split_step(candidates1, gc, b6, i);
        lemma_kept_step(self, gc, e_p);
        gc = gc.push(e_p);
    }
//@closure 1 |$1: &Arc<PointWithOrder<'b, T>>| -> (o: bool)
    ensures o == (key(self.dist_f.d(e_p.point_ref.data@, $1.point_ref.data@)) <= -key(e_p.dist_to_ref))
//@at after-loop 6
    let ghost mut gdrest = Seq::<Arc<PointWithOrder<'b, T>>>::empty();
    proof { lemma_kept_ok(self, data@, gc); lemma_split_start(pruned(self, gc)); gdrest = pruned(self, gc); }
//@loop 7
    invariant
        keep_pruned, all_ok(self, data@, -1, discarded_points@), distinct(discarded_points@), all_ok(self, data@, -1, kept(self, gc) + gdc), distinct(kept(self, gc) + gdc), apart(kept(self, gc) + gdc, discarded_points@),
        split(pruned(self, gc), gdc, discarded_points@), nearest_first(gdc), not_nearer(gdc, discarded_points@), gdrest == discarded_points@,
        negated(neighbours_vec@, kept(self, gc) + gdc), neighbours_vec@.len() <= nb_neighbours_asked,
//@if P19
    decreases discarded_points@.len(),
//@endif
//@at loop-end 7
    proof {
        let i = choose|i: int| 0 <= i < gdrest.len() && best_point == #[trigger] gdrest[i] && discarded_points@ == gdrest.remove(i);
        lemma_split_step(pruned(self, gc), gdc, gdrest, i);
        assert((kept(self, gc) + gdc).push(best_point) =~= kept(self, gc) + gdc.push(best_point));
        gdc = gdc.push(best_point);
        gdrest = discarded_points@;
    }
//@at end
    proof {
        assert(kept(self, gc) + Seq::<Arc<PointWithOrder<'b, T>>>::empty() =~= kept(self, gc));
        assert(selection(self, data@, cand0, nb_neighbours_asked as int, extend_candidates_asked, layer as int, keep_pruned, neighbours_vec@, gext, gc, candidates@, gdc, gdrest));
    }
//@endfn
}
}
}
