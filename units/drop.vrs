#![allow(unused)]
use vstd::prelude::*;
//@mode conc
//@ghosttype &mut Heap<'b, T>
//@ghostarg read:&Heap<'b,T> write:&Heap<'b,T> clear_neighborhoods get_max_level_observed:&Heap<'b,T> drop
//@include pre_float.vrs
pub mod sp {
use vstd::prelude::*;
use std::sync::Arc;
use core::cmp::Ordering;
use super::fl::*;
verus! {
broadcast use {super::fl::ax_f32_cmp, super::fl::ax_f32_eq, super::fl::ax_f32_obeys, super::fl::ax_f32_zero};
//@include pre_std.vrs
//@include pre_lock_drop.vrs
//@include types.vrs
//@include pre_par.vrs
pub open spec fn empty_lists<E>(s: Seq<Vec<E>>) -> bool { forall|l: int| 0 <= l < s.len() ==> (#[trigger] s[l])@.len() == 0 }
pub open spec fn layers_of<'b, T: Clone + Send + Sync>(p: &PointIndexation<'b, T>, h: HeapView<'b, T>) -> Layers<'b, T> { h.layers[p.points_by_layer.id()] }
pub open spec fn entry_of<'b, T: Clone + Send + Sync>(p: &PointIndexation<'b, T>, h: HeapView<'b, T>) -> Entry<'b, T> { h.entries[p.entry_point.id()] }
pub open spec fn top_of<'b, T: Clone + Send + Sync>(e: Entry<'b, T>) -> int { match e { Some(p) => p.p_id.0 as int, None => 0 } }
// what P07 and P13 show of every index that was built or reloaded: no point lies above the entry point
pub open spec fn covered<'b, T: Clone + Send + Sync>(p: &PointIndexation<'b, T>, h: HeapView<'b, T>) -> bool {
    let ls = layers_of(p, h)@;
    &&& top_of(entry_of(p, h)) < ls.len()
    &&& forall|l: int| top_of(entry_of(p, h)) < l < ls.len() ==> (#[trigger] ls[l])@.len() == 0
}
pub open spec fn cut<'b, T: Clone + Send + Sync>(p: &Point<'b, T>, h: HeapView<'b, T>) -> bool { empty_lists(h.lists[p.neighbours.id()]@) }
// no point of this layer holds any other point
pub open spec fn all_cut<'b, T: Clone + Send + Sync>(s: Seq<Arc<Point<'b, T>>>, h: HeapView<'b, T>) -> bool { forall|j: int| 0 <= j < s.len() ==> cut(&*(#[trigger] s[j]), h) }
}
}
pub mod code {
use vstd::prelude::*;
use std::sync::Arc;
use core::cmp::Ordering;
use super::fl::*;
use super::sp::*;
verus! {
broadcast use {super::fl::ax_f32_cmp, super::fl::ax_f32_eq, super::fl::ax_f32_obeys, super::fl::ax_f32_zero};
//@fn src/hnsw.rs Drop for PointIndexation::drop/clear_neighborhoods
//@sub? < T : Clone + Send + Sync > => <'b, T: Clone + Send + Sync>
//@sub? & Point < T > => &Point<'b, T>
//@spec
    ensures final(hist__)@.lists.dom() =~= old(hist__)@.lists.dom().insert(init.neighbours.id()), final(hist__)@.layers == old(hist__)@.layers, final(hist__)@.entries == old(hist__)@.entries,
        cut(init, final(hist__)@),
        forall|i: int| i != init.neighbours.id() ==> #[trigger] final(hist__)@.lists[i] == old(hist__)@.lists[i]
//@loop 1
        invariant neighbours@.len() == nb_layer, forall|m: int| 0 <= m < l ==> (#[trigger] neighbours@[m])@.len() == 0
//@endfn
impl<'b, T: Clone + Send + Sync> PointIndexation<'b, T> {
//@fn src/hnsw.rs PointIndexation::get_max_level_observed
//@ret r
//@spec
    ensures r == top_of(entry_of(self, hist__@))
//@endfn
//@fn src/hnsw.rs Drop for PointIndexation::drop
//@sub? i . as_ref ( ) => &**i
//@sub? ProcessTime :: now ( ) => ()
//@sub? SystemTime :: now ( ) => ()
//@spec
    requires covered(old(self), old(hist__)@)
    ensures forall|l: int, j: int| 0 <= l < layers_of(old(self), old(hist__)@)@.len() && 0 <= j < layers_of(old(self), old(hist__)@)@[l]@.len() ==> cut(&*(#[trigger] layers_of(old(self), old(hist__)@)@[l]@[j]), final(hist__)@)
//@at start
    let ghost ls = layers_of(self, hist__@)@;
    let ghost lid = self.points_by_layer.id();
//@loop 1 it
        invariant
            *self == *old(self), lid == self.points_by_layer.id(), ls == layers_of(old(self), old(hist__)@)@, nb_level == top_of(entry_of(old(self), old(hist__)@)), nb_level < ls.len(),
            entry_of(self, hist__@) == entry_of(old(self), old(hist__)@),
            hist__@.layers[lid]@.len() == ls.len(),
            forall|m: int| it.index() <= m < ls.len() ==> #[trigger] hist__@.layers[lid]@[m] == ls[m],
            forall|m: int| 0 <= m < it.index() ==> all_cut((#[trigger] ls[m])@, hist__@),
//@at loop-start 1
    let ghost before = hist__@;
    assert(l == it.index());
//@par 1
        invariant
            vpar__1@ == ls[l as int]@, vperm(vord__1@, vpar__1@.len() as int),
            hist__@.layers == before.layers, hist__@.entries == before.entries,
            forall|m: int| 0 <= m < l ==> all_cut((#[trigger] ls[m])@, hist__@),
            forall|i: int| 0 <= i < k__1 ==> cut(&*vpar__1@[(#[trigger] vord__1@[i]) as int], hist__@),
//@at par-after 1
    assert(all_cut(ls[l as int]@, hist__@)) by {
        assert forall|j: int| 0 <= j < ls[l as int]@.len() implies cut(&*(#[trigger] ls[l as int]@[j]), hist__@) by { assert(vord__1@.contains(j as usize)); }
    }
//@endfn
}
}
}
