#![allow(unused)]
use vstd::prelude::*;
//@mode io
//@sub? anyhow :: Result => Result
//@sub? anyhow :: anyhow ! ( $x ) => vanyhow()
//@sub? . to_string ( ) => .vstring()
//@include pre_float.vrs
pub mod sp {
use vstd::prelude::*;
use std::sync::Arc;
use core::cmp::Ordering;
use super::fl::*;
verus! {
global size_of usize == 8;
broadcast use {super::fl::ax_f32_cmp, super::fl::ax_f32_eq, super::fl::ax_f32_obeys, super::fl::ax_f32_zero};
//@include pre_std.vrs
//@include pre_lock_frozen.vrs
//@include pre_io.vrs
//@include pre_rng.vrs
//@include types.vrs
//@const src/hnsw.rs NB_LAYER_MAX
//@const src/hnswio.rs MAGICPOINT
//@const src/hnswio.rs MAGICDESCR_2
//@const src/hnswio.rs MAGICDESCR_3
//@const src/hnswio.rs MAGICDESCR_4
//@const src/hnswio.rs MAGICLAYER
//@const src/hnswio.rs MAGICDATAP
//@struct src/hnswio.rs Description
//@include spec_index.vrs
//@include spec_io.vrs
//@include spec_dump.vrs
//@include spec_point_dump.vrs
}
}
pub mod lem {
use vstd::prelude::*;
use std::sync::Arc;
use super::fl::*;
use super::sp::*;
verus! {
//@include lem_dump.vrs
}
}
pub mod code {
use vstd::prelude::*;
use std::sync::Arc;
use core::cmp::Ordering;
use super::fl::*;
use super::sp::*;
use super::lem::*;
verus! {
broadcast use {super::fl::ax_f32_cmp, super::fl::ax_f32_eq, super::fl::ax_f32_obeys, super::fl::ax_f32_zero, super::sp::ax_enc_len, super::sp::ax_raw_len};
//@include fns_point.vrs
impl<'b, T: Clone + Send + Sync> Point<'b, T> {
//@fn src/hnsw.rs Point::get_neighborhood_id
//@ret r
//@spec
    ensures vviews(r@) =~= rec_of(*self).nb
//@loop 1 it
    invariant nb_layer == self.nlayers(), it.seq().len() == nb_layer, neighborhood@.len() == it.index(), ref_neighbours@ == (*self.neighbours)@@,
        forall|l: int| 0 <= l < neighborhood@.len() ==> (#[trigger] neighborhood@[l])@ =~= links(self.nb(l))
//@loop 2 it2
    invariant 0 <= i < nb_layer, nb_layer == self.nlayers(), ref_neighbours@ == (*self.neighbours)@@, it2.seq().len() == self.nb(i as int).len(), forall|k: int| 0 <= k < it2.seq().len() ==> *(#[trigger] it2.seq()[k]) == self.nb(i as int)[k],
        neighbours@.len() == it2.index(), forall|k: int| 0 <= k < neighbours@.len() ==> #[trigger] neighbours@[k] == link(self.nb(i as int)[k])
//@endfn
}
//@if !P14
impl LayerGenerator {
//@fn src/hnsw.rs LayerGenerator::get_level_scale
//@ret r
//@spec
    ensures r == self.scale
//@endfn
}
impl<'b, T: Clone + Send + Sync> PointIndexation<'b, T> {
//@fn src/hnsw.rs PointIndexation::get_level_scale
//@ret r
//@spec
    ensures r == self.layer_g.scale
//@endfn
//@fn src/hnsw.rs PointIndexation::get_nb_point
//@ret r
//@spec
    ensures r == (*self.nb_point)@
//@endfn
//@fn src/hnsw.rs PointIndexation::get_data_dimension
//@ret r
//@spec
    ensures r == (if self.entry() is Some { self.entry()->0.data@.len() as int } else { 0 })
//@endfn
//@fn src/hnswio.rs HnswIoT for PointIndexation::dump
//@ret r
//@spec
    requires self.dumpable(), mode is Full
    ensures final(dumpinit).graph_out.end() == old(dumpinit).graph_out.end(), final(dumpinit).data_out.end() == old(dumpinit).data_out.end(), final(dumpinit).basename == old(dumpinit).basename,
        final(dumpinit).graph_out.path() == old(dumpinit).graph_out.path(), final(dumpinit).data_out.path() == old(dumpinit).data_out.path(), final(dumpinit).data_out.was_empty() == old(dumpinit).data_out.was_empty(),
        r is Ok ==> self.entry() is Some && index_at(old(dumpinit).graph_out.end(), old(dumpinit).graph_out.p(), old(dumpinit).data_out.end(), old(dumpinit).data_out.p(), recs_of(self.layers()), self.ep_of(), 16, true)
            && final(dumpinit).data_out.p() == old(dumpinit).data_out.p() + ldoff(recs_of(self.layers()), self.layers().len() as int)
            && final(dumpinit).graph_out.p() == old(dumpinit).graph_out.p() + 14 + lgoff(recs_of(self.layers()), self.layers().len() as int, 16, true),
//@at start
    let ghost gb = dumpinit.graph_out.end();
    let ghost gp = dumpinit.graph_out.p();
    let ghost db = dumpinit.data_out.end();
    let ghost dp = dumpinit.data_out.p();
    let ghost gpa = dumpinit.graph_out.path();
    let ghost dpa = dumpinit.data_out.path();
    let ghost s = recs_of(self.layers());
//@loop 1 it
    invariant after_borrow(dumpinit).graph_out == *final(graphout), after_borrow(dumpinit).data_out == *final(dataout), after_borrow(dumpinit).basename == old(dumpinit).basename, dataout.was_empty() == old(dumpinit).data_out.was_empty(),
        gb == old(dumpinit).graph_out.end(), gpa == old(dumpinit).graph_out.path(), db == old(dumpinit).data_out.end(), dpa == old(dumpinit).data_out.path(), gp == old(dumpinit).graph_out.p(), dp == old(dumpinit).data_out.p(),
        layers@ == self.layers(), it.seq().len() == self.layers().len(), s == recs_of(self.layers()), self.dumpable(), mode is Full, graphout.end() == gb, dataout.end() == db, graphout.path() == gpa, dataout.path() == dpa,
        num_at(gb, gp, s.len() as u8), s.len() <= 16,
        layers_at(gb, gp + 1, db, dp, s, it.index() as int, 16, true), graphout.p() == gp + 1 + lgoff(s, it.index() as int, 16, true), dataout.p() == dp + ldoff(s, it.index() as int),
//@at loop-start 1
    let ghost l0 = it.index() as int;
    let ghost lg = graphout.p() + 12;
    let ghost ld = dataout.p();
    proof { lemma_no_recs(gb, lg, db, ld, s[l0], l0, 16, true); assert(s[l0] == layer_recs(self.layers()[l0])); }
//@loop 2 jt
    invariant after_borrow(dumpinit).graph_out == *final(graphout), after_borrow(dumpinit).data_out == *final(dataout), after_borrow(dumpinit).basename == old(dumpinit).basename, dataout.was_empty() == old(dumpinit).data_out.was_empty(),
        gb == old(dumpinit).graph_out.end(), gpa == old(dumpinit).graph_out.path(), db == old(dumpinit).data_out.end(), dpa == old(dumpinit).data_out.path(), gp == old(dumpinit).graph_out.p(), dp == old(dumpinit).data_out.p(),
        layers@ == self.layers(), 0 <= i < self.layers().len(), l0 == i, jt.seq().len() == self.layers()[l0]@.len(), s == recs_of(self.layers()), s[l0] == layer_recs(self.layers()[l0]), self.dumpable(), mode is Full, graphout.end() == gb, dataout.end() == db, graphout.path() == gpa, dataout.path() == dpa,
        recs_at(gb, lg, db, ld, s[l0], l0, jt.index() as int, 16, true), graphout.p() == lg + goff(s[l0], jt.index() as int, 16, true), dataout.p() == ld + doff(s[l0], jt.index() as int),
//@at loop-start 2
    let ghost r0 = jt.index() as int;
    proof {
        assert(self.stored(*self.layers()[l0]@[r0]) && self.layers()[l0]@[r0].p_id == PointId(l0 as u8, r0 as i32));
        assert(s[l0][r0] == rec_of(*self.layers()[l0]@[r0]));
    }
//@at loop-end 2
    proof { lemma_recs_next(gb, lg, db, ld, s[l0], l0, r0, 16, true); }
//@at loop-end 1
    proof { lemma_layers_next(gb, gp + 1, db, dp, s, l0, 16, true); }
//@endfn
}
impl Description {
//@fn src/hnswio.rs Description::dump
//@ret r
//@spec
    requires argmode is Full
    ensures final(out).end() == old(out).end(), final(out).path() == old(out).path(),
        r is Ok ==> ({ let d = Description { format_version: 4, dumpmode: 1, ..*self }; descr_at(old(out).end(), old(out).p(), d) && final(out).p() == old(out).p() + descr_len(d) && self.nb_layer == 16 })
//@endfn
}
//@fn src/hnswio.rs dump_point
//@sub? std :: slice :: from_raw_parts => vraw
//@sub? . as_ptr ( ) as * const u8 => 
//@sub? std :: mem :: size_of_val => vsize_of_val
//@ret r
//@spec
    requires (*point.neighbours)@@.len() == 16, mode is Full, raw_of(point.data@).len() <= usize::MAX
    ensures final(graphout).end() == old(graphout).end(), final(dataout).end() == old(dataout).end(), final(graphout).path() == old(graphout).path(), final(dataout).path() == old(dataout).path(), final(dataout).was_empty() == old(dataout).was_empty(),
        r is Ok ==> graph_at(old(graphout).end(), old(graphout).p(), rec_of(*point), 16, true) && final(graphout).p() == old(graphout).p() + graph_len(rec_of(*point), 16, true)
            && data_at(old(dataout).end(), old(dataout).p(), point.origin_id, rec_of(*point).raw) && final(dataout).p() == old(dataout).p() + data_len(rec_of(*point).raw)
//@at start
    let ghost gb = graphout.end();
    let ghost gp = graphout.p();
    let ghost gpa = graphout.path();
    let ghost db = dataout.end();
    let ghost dp = dataout.p();
    let ghost dpa = dataout.path();
    let ghost nb = rec_of(*point).nb;
    proof { assert(nb.len() == 16); assert(raw_of(point.data@).take(raw_of(point.data@).len() as int) =~= raw_of(point.data@)); }
//@loop 1 it
    invariant dataout.was_empty() == old(dataout).was_empty(), gb == old(graphout).end(), gpa == old(graphout).path(), db == old(dataout).end(), dpa == old(dataout).path(), gp == old(graphout).p(), dp == old(dataout).p(),
        vviews(neighborhood@) == nb, nb.len() == 16, it.seq().len() == 16, graphout.end() == gb, graphout.path() == gpa, dataout.end() == db, dataout.path() == dpa, dataout.p() == dp, mode is Full,
        lists_at(gb, gp + 17, nb, it.index() as int, true), graphout.p() == gp + 17 + loff(nb, it.index() as int, true),
//@at loop-start 1
    let ghost l0 = it.index() as int;
    let ghost q = graphout.p();
    proof { assert(vviews(neighborhood@)[l0] == nb[l0]); assert(neighborhood@[l0]@ == nb[l0]); }
//@loop 2 jt
    invariant dataout.was_empty() == old(dataout).was_empty(), gb == old(graphout).end(), gpa == old(graphout).path(), db == old(dataout).end(), dpa == old(dataout).path(), gp == old(graphout).p(), dp == old(dataout).p(),
        graphout.end() == gb, graphout.path() == gpa, dataout.end() == db, dataout.path() == dpa, dataout.p() == dp, mode is Full, 0 <= l0 < 16, neighbours_at_l@ == nb[l0], jt.seq().len() == nb[l0].len(), nb[l0].len() <= usize::MAX, forall|k: int| 0 <= k < jt.seq().len() ==> *(#[trigger] jt.seq()[k]) == nb[l0][k],
        num_at(gb, q, nb[l0].len() as usize), links_at(gb, q + 8, nb[l0], jt.index() as int, true), graphout.p() == q + 8 + upto(jt.index() as int, true), q >= 0
//@endfn
impl<'b, T: Clone + Send + Sync, D: Distance<T> + Send + Sync> Hnsw<'b, T, D> {
//@fn src/hnsw.rs Hnsw::get_ef_construction
//@ret r
//@spec
    ensures r == self.ef_construction
//@endfn
//@fn src/hnsw.rs Hnsw::get_max_level
//@ret r
//@spec
    ensures r == self.max_layer
//@endfn
//@fn src/hnsw.rs Hnsw::get_max_nb_connection
//@ret r
//@spec
    ensures r == self.max_nb_connection as u8
//@endfn
//@fn src/hnsw.rs Hnsw::get_nb_point
//@ret r
//@spec
    ensures r == (*self.layer_indexed_points.nb_point)@
//@endfn
//@fn src/hnsw.rs Hnsw::get_distance_name
//@sub? type_name :: < D > ( ) => vtype_name::<D>()
//@ret r
//@spec
    ensures r@ == tname::<D>()
//@endfn
//@fn src/hnswio.rs HnswIoT for Hnsw::dump
//@sub? type_name :: < T > ( ) => vtype_name::<T>()
//@ret r
//@spec
    requires self.layer_indexed_points.dumpable(), mode is Full, self.max_layer <= 255
    ensures final(dumpinit).graph_out.end() == old(dumpinit).graph_out.end(), final(dumpinit).data_out.end() == old(dumpinit).data_out.end(), final(dumpinit).basename == old(dumpinit).basename,
        final(dumpinit).graph_out.path() == old(dumpinit).graph_out.path(), final(dumpinit).data_out.path() == old(dumpinit).data_out.path(), final(dumpinit).data_out.was_empty() == old(dumpinit).data_out.was_empty(),
        r is Ok && old(dumpinit).graph_out.pn() == 0 && old(dumpinit).data_out.pn() == 0 ==> exists|d: Description| #[trigger] self.described(d) && d.nb_layer == 16
            && dump_at(old(dumpinit).graph_out.end(), old(dumpinit).data_out.end(), d, recs_of(self.layers()), self.layer_indexed_points.ep_of()) && self.layer_indexed_points.entry() is Some
            && final(dumpinit).data_out.p() == 12 + ldoff(recs_of(self.layers()), self.layers().len() as int)
            && final(dumpinit).graph_out.p() == descr_len(d) + 14 + lgoff(recs_of(self.layers()), self.layers().len() as int, 16, true),
//@at start
    hide(index_at); hide(PointIndexation::dumpable);
//@at tail
    proof {
        let d = Description { format_version: 4, dumpmode: 1, ..description };
        assert(self.described(d));
    }
//@endfn
}
//@endif
impl DumpInit {
//@fn src/hnswio.rs DumpInit::get_basename
//@ret r
//@spec
    ensures *r == self.basename
//@endfn
//@fn src/hnswio.rs DumpInit::flush
//@ret r
//@spec
    ensures final(self).basename == old(self).basename, final(self).graph_out.end() == old(self).graph_out.end(), final(self).data_out.end() == old(self).data_out.end(),
        final(self).graph_out.pn() == old(self).graph_out.pn(), final(self).data_out.pn() == old(self).data_out.pn(), final(self).graph_out.path() == old(self).graph_out.path(), final(self).data_out.path() == old(self).data_out.path(),
        final(self).graph_out.was_empty() == old(self).graph_out.was_empty(), final(self).data_out.was_empty() == old(self).data_out.was_empty(), r is Ok ==> final(self).graph_out.flushed() && final(self).data_out.flushed(),
//@endfn
//@fn src/hnswio.rs DumpInit::new
//@attr #[verifier::exec_allows_no_decreases_clause]
//@sub? std :: fs :: metadata ( $x ) => vmetadata($x)
//@sub? rand :: thread_rng ( ) . gen_range ( $x ) => varb()
//@sub? std :: panic :: panic_any ( $x ) => vdiverge()
//@sub? BufWriter :: new ( $x ) => vbufwriter($x)
//@ret r
//@spec
//@if P14
    requires may_all(dir@, lit(basename_default@), overwrite)
    ensures name_ok(dir@, lit(basename_default@), overwrite, r.basename@), 
//@else
    ensures r.graph_out.pn() == 0, r.data_out.pn() == 0, 
//@endif
        r.graph_out.path() == gpath(dir@, r.basename@), r.data_out.path() == dpath(dir@, r.basename@),
//@if !P14
        r.data_out.was_empty(),
//@endif
//@loop 1
    invariant true
    ensures !exists0(dpath(dir@, sview(vbrk__1)))
//@endfn
}
//@if P14
impl<'b, T: Clone + Send + Sync, D: Distance<T> + Send + Sync> Hnsw<'b, T, D> {
    // the writing itself: see P10
    #[verifier::external_body]
    pub fn dump(&self, mode: DumpMode, dumpinit: &mut DumpInit) -> (r: Result<i32>)
        ensures final(dumpinit).basename == old(dumpinit).basename
    { unimplemented!() }
}
//@endif
impl<'b, T: Clone + Send + Sync, D: Distance<T> + Send + Sync> Hnsw<'b, T, D> {
//@fn src/hnsw.rs Hnsw::get_datamap_opt
//@ret r
//@spec
    ensures r == self.datamap_opt
//@endfn
//@fn src/api.rs AnnT for Hnsw::file_dump
//@ret r
//@spec
//@if P14
    requires may_all(path@, lit(file_basename@), !self.datamap_opt)
    ensures r is Ok ==> name_ok(path@, lit(file_basename@), !self.datamap_opt, r->Ok_0@)
//@else
    requires self.layer_indexed_points.dumpable(), self.max_layer <= 255, name_fits(tname::<D>()), name_fits(tname::<T>())
    ensures r is Ok ==> self.max_nb_connection <= 255 ==> exists|d: Description| #[trigger] self.described(d)
        && whole_dump::<T, D>(content(gpath(path@, r->Ok_0@)), content(dpath(path@, r->Ok_0@)), d, recs_of(self.layers()), self.layer_indexed_points.ep_of())
        && content(dpath(path@, r->Ok_0@)).len() == 12 + ldoff(recs_of(self.layers()), self.layers().len() as int) && d.dimension * size_of_t::<T>() <= i64::MAX
//@at start
    hide(index_at); hide(descr_at); hide(coherent); hide(PointIndexation::dumpable);
//@at tail
    proof {
        if res is Ok {
            let d = choose|d: Description| #[trigger] self.described(d) && d.nb_layer == 16 && dump_at(dumpinit.graph_out.end(), dumpinit.data_out.end(), d, recs_of(self.layers()), self.layer_indexed_points.ep_of());
            lemma_coherent(self.layer_indexed_points);
            ax_written(dumpinit.graph_out);
            ax_written(dumpinit.data_out);
            lemma_filled(self.layer_indexed_points, dumpinit.graph_out.end(), descr_len(d) + 1, dumpinit.data_out.end());
        }
    }
//@endif
//@endfn
}
}
}
fn main() {}
