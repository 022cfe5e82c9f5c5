#![allow(unused)]
use vstd::prelude::*;
//@include pre_float.vrs
pub mod f64s {
pub use super::f64m::fl::*;
}
pub mod f64m {
use vstd::prelude::*;
//@include pre_f64.vrs
}
pub mod sp {
use vstd::prelude::*;
use std::sync::Arc;
use core::cmp::Ordering;
use super::fl::*;
verus! {
broadcast use {super::fl::ax_f32_cmp, super::fl::ax_f32_eq, super::fl::ax_f32_obeys, super::fl::ax_f32_zero};
//@include pre_std.vrs
//@include pre_lock_frozen.vrs
//@include pre_rng.vrs
//@include types.vrs
//@include spec_index.vrs
//@const src/hnsw.rs NB_LAYER_MAX
pub open spec fn empty_lists<E>(s: Seq<Vec<E>>) -> bool { forall|l: int| 0 <= l < s.len() ==> (#[trigger] s[l])@.len() == 0 }
// copying a slice element by element   [assumption: containers]
#[verifier::external_body]
pub fn vto_vec<T: Clone>(s: &[T]) -> (r: Vec<T>) ensures r@ == s@ { s.to_vec() }
pub fn vi32_usize(x: i32) -> (r: usize) requires x >= 0 ensures r == x { x as usize }
impl<'b, T: Clone + Send + Sync> PointIndexation<'b, T> {
    // at rest: no layer above the entry point's level holds a point (nor any layer, without entry point); P07 is about that
    pub open spec fn top_ok(&self) -> bool {
        &&& self.layers().len() <= 16
        &&& self.entry().is_some() ==> self.entry()->0.p_id.0 < self.layers().len()
        &&& forall|l: int| 0 <= l < self.layers().len() && (self.entry().is_some() ==> l > self.entry()->0.p_id.0) ==> (#[trigger] self.layers()[l])@.len() == 0
    }
    pub open spec fn names(&self, id: PointId) -> bool { id.0 < self.layers().len() && 0 <= id.1 < self.layers()[id.0 as int]@.len() }
    pub open spec fn at_id(&self, id: PointId) -> Arc<Point<'b, T>> { self.layers()[id.0 as int]@[id.1 as int] }
}
}
}
pub mod code {
use vstd::prelude::*;
use std::sync::Arc;
use core::cmp::Ordering;
use super::fl::*;
use super::f64s::{f64_any, f64_as_usize};
use super::sp::*;
verus! {
broadcast use {super::fl::ax_f32_cmp, super::fl::ax_f32_eq, super::fl::ax_f32_obeys, super::fl::ax_f32_zero};
//@include fns_point.vrs
impl LayerGenerator {
//@fn src/hnsw.rs LayerGenerator::new
//@sub? let scale = $x ; => let scale = f64_any();
//@ret r
//@spec
    ensures r.maxlevel == maxlevel
//@endfn
}
impl<'b, T: Clone + Send + Sync + 'b> PointData<'b, T> {
//@fn src/hnsw.rs PointData::new_v
//@ret r
//@spec
    ensures r@ == v@
//@endfn
//@fn src/hnsw.rs PointData::new_s
//@ret r
//@spec
    ensures r@ == s@
//@endfn
}
impl<'b, T: Clone + Send + Sync> Point<'b, T> {
//@fn src/hnsw.rs Point::new
//@ret r
//@spec
    ensures r.data@ == v@, r.origin_id == origin_id, r.p_id == p_id, (*r.neighbours)@@.len() == 16, forall|l: int| 0 <= l < 16 ==> r.nb(l).len() == 0
//@loop 1 it
    invariant neighbours@.len() == it.index(), it.seq().len() == 16, empty_lists(neighbours@)
//@endfn
//@fn src/hnsw.rs Point::new_from_mmap
//@ret r
//@spec
    ensures r.data@ == s@, r.origin_id == origin_id, r.p_id == p_id, (*r.neighbours)@@.len() == 16, forall|l: int| 0 <= l < 16 ==> r.nb(l).len() == 0
//@loop 1 it
    invariant neighbours@.len() == it.index(), it.seq().len() == 16, empty_lists(neighbours@)
//@endfn
}
impl<'b, T: Clone + Send + Sync> PointIndexation<'b, T> {
//@fn src/hnsw.rs PointIndexation::new
//@sub? let s = $x ; => let s = f64_any();
//@sub? let frac = $x ; => let frac = f64_any();
//@sub? let expected_size = $x ; => let expected_size = f64_as_usize(f64_any());
//@ret r
//@spec
    // a new index holds nothing; levels drawn for it are below its number of layers
    ensures r.layers().len() == max_layer, forall|l: int| 0 <= l < max_layer ==> (#[trigger] r.layers()[l])@.len() == 0, r.entry().is_none(), (*r.nb_point)@ == 0,
        r.layer_g.maxlevel == max_layer, r.max_layer == max_layer, r.max_nb_connection == max_nb_connection
//@loop 1 it
    invariant points_by_layer@.len() == it.index(), it.seq().len() == max_layer, empty_lists(points_by_layer@)
//@endfn
//@fn src/hnsw.rs PointIndexation::get_max_level_observed
//@ret r
//@spec
    ensures r == (if self.entry().is_some() { self.entry()->0.p_id.0 } else { 0 })
//@endfn
//@fn src/hnsw.rs PointIndexation::get_nb_point
//@ret r
//@spec
    ensures r == (*self.nb_point)@
//@endfn
//@fn src/hnsw.rs PointIndexation::get_layer_nb_point
//@ret r
//@spec
    ensures r == (if layer < self.layers().len() { self.layers()[layer as int]@.len() } else { 0 })
//@endfn
//@fn src/hnsw.rs PointIndexation::get_data_dimension
//@ret r
//@spec
    ensures r == (if self.entry().is_some() { self.entry()->0.data@.len() } else { 0 })
//@endfn
//@fn src/hnsw.rs PointIndexation::get_point_data
//@sub? std :: convert :: TryFrom :: try_from ( $x ) . unwrap ( ) => vi32_usize($x)
//@sub? self . points_by_layer . read ( ) [ l ] [ p ] . get_v ( ) . to_vec ( ) => vto_vec(self.points_by_layer.read()[l][p].get_v())
//@ret r
//@spec
    // an id naming a stored point gives its vector, any other id gives nothing
    requires self.top_ok()
    ensures r.is_some() == self.names(*p_id), r.is_some() ==> r->0@ == self.at_id(*p_id).data@
//@endfn
//@fn src/hnsw.rs PointIndexation::get_point
//@sub? std :: convert :: TryFrom :: try_from ( $x ) . unwrap ( ) => vi32_usize($x)
//@ret r
//@spec
    requires self.top_ok()
    ensures r.is_some() == self.names(*p_id), r.is_some() ==> r->0 == self.at_id(*p_id)
//@endfn
}
impl<'b, T: Clone + Send + Sync, D: Distance<T> + Send + Sync> Hnsw<'b, T, D> {
//@fn src/hnsw.rs Hnsw::new
//@sub? std :: process :: exit ( 1 ) => vexit()
//@sub? ( NB_LAYER_MAX as usize ) . min ( max_layer ) => vmin(NB_LAYER_MAX as usize, max_layer)
//@sub? max_layer . min ( NB_LAYER_MAX as usize ) => vmin(NB_LAYER_MAX as usize, max_layer)
//@ret r
//@spec
    ensures r.layers().len() == (if max_layer < 16 { max_layer as int } else { 16 }), r.max_layer == r.layers().len(), r.layer_indexed_points.layer_g.maxlevel == r.max_layer,
        forall|l: int| 0 <= l < r.layers().len() ==> (#[trigger] r.layers()[l])@.len() == 0, r.layer_indexed_points.entry().is_none(), (*r.layer_indexed_points.nb_point)@ == 0,
        r.max_nb_connection == max_nb_connection, max_nb_connection <= 256, r.ef_construction == ef_construction, r.dist_f == f,
//@if opt
        !r.datamap_opt,
//@endif
//@if P18
        !r.extend_candidates, !r.keep_pruned,
//@endif
        r.layer_indexed_points.max_layer == r.max_layer, r.layer_indexed_points.max_nb_connection == max_nb_connection,
//@endfn
//@fn src/hnsw.rs Hnsw::get_nb_point
//@ret r
//@spec
    ensures r == (*self.layer_indexed_points.nb_point)@
//@endfn
//@fn src/hnsw.rs Hnsw::get_max_level_observed
//@ret r
//@spec
    ensures r == (if self.layer_indexed_points.entry().is_some() { self.layer_indexed_points.entry()->0.p_id.0 } else { 0 })
//@endfn
//@fn src/hnsw.rs Hnsw::get_max_level
//@ret r
//@spec
    ensures r == self.max_layer
//@endfn
//@fn src/hnsw.rs Hnsw::get_ef_construction
//@ret r
//@spec
    ensures r == self.ef_construction
//@endfn
//@fn src/hnsw.rs Hnsw::get_max_nb_connection
//@ret r
//@spec
    requires self.max_nb_connection <= 255
    ensures r == self.max_nb_connection
//@endfn
//@fn src/hnsw.rs Hnsw::set_extend_candidates
//@spec
    ensures final(self).extend_candidates == flag,
//@if P18
        final(self).keep_pruned == old(self).keep_pruned, final(self).max_nb_connection == old(self).max_nb_connection,
//@endif
//@endfn
//@fn src/hnsw.rs Hnsw::set_keeping_pruned
//@spec
    ensures final(self).keep_pruned == flag,
//@if P18
        final(self).extend_candidates == old(self).extend_candidates, final(self).max_nb_connection == old(self).max_nb_connection,
//@endif
//@endfn
}
}
}
