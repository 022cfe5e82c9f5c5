#![allow(unused)]
use vstd::prelude::*;
//@if P13
//@mode conc io maypanic
//@else
//@mode conc io
//@endif
//@sub? & mut dyn Read => &mut VRead
//@sub? std :: any :: TypeId :: of :: < T > ( ) != std :: any :: TypeId :: of :: < NoData > ( ) => !vis_nodata::<T>()
//@sub? std :: any :: TypeId :: of :: < T > ( ) == std :: any :: TypeId :: of :: < NoData > ( ) => vis_nodata::<T>()
//@sub? anyhow :: Result => Result
//@sub? . to_string ( ) => .vstring()
//@include pre_float.vrs
pub mod sp {
use vstd::prelude::*;
use std::sync::Arc;
use core::cmp::Ordering;
use super::fl::*;
verus! {
global size_of usize == 8;
broadcast use {super::fl::ax_f32_cmp, super::fl::ax_f32_eq, super::fl::ax_f32_obeys, super::fl::ax_f32_zero};
//@include pre_std.vrs
//@include pre_lock_heap.vrs
//@include pre_io.vrs
//@include pre_rng.vrs
//@include types.vrs
//@const src/hnsw.rs NB_LAYER_MAX
//@const src/hnswio.rs MAGICPOINT
//@const src/hnswio.rs MAGICDESCR_2
//@const src/hnswio.rs MAGICDESCR_3
//@const src/hnswio.rs MAGICDESCR_4
//@const src/hnswio.rs MAGICLAYER
//@const src/hnswio.rs MAGICDATAP
//@struct src/hnswio.rs Description
//@type src/hnswio.rs PointGraphInfo
//@sub? BufReader < File > => VRead
//@struct src/hnswio.rs LoadInit
//@include spec_io.vrs
//@include spec_dump.vrs
//@include spec_map.vrs
//@include spec_load.vrs
//@include pre_tostring.vrs
}
}
pub mod lem {
use vstd::prelude::*;
use std::sync::Arc;
use super::fl::*;
use super::sp::*;
verus! {
//@include lem_io.vrs
//@include lem_map.vrs
//@include lem_flat.vrs
}
}
pub mod code {
use vstd::prelude::*;
use std::sync::Arc;
use core::cmp::Ordering;
use super::fl::*;
use super::sp::*;
use super::lem::*;
verus! {
broadcast use {super::fl::ax_f32_cmp, super::fl::ax_f32_eq, super::fl::ax_f32_obeys, super::fl::ax_f32_zero, super::sp::ax_enc_len, super::sp::ax_dec, super::sp::ax_raw_len, super::sp::ax_file_len, super::lem::lemma_at_unique, super::lem::lemma_at_fits};
//@include fns_point.vrs
//@include fns_descr.vrs
//@fn src/hnswio.rs load_point_graph
//@sub? Default :: default ( ) => varb()
//@ret r
//@spec
//@if !P13
    requires isfull(*descr), descr.nb_layer <= 16, exists|g: Rec| #[trigger] graph_at(old(graph_in).b(), old(graph_in).p(), g, descr.nb_layer as int, true),
//@endif
    ensures final(graph_in).b() == old(graph_in).b(),
        r is Ok ==> ({
            let g = Rec { id: r->Ok_0.0, p_id: r->Ok_0.1, nb: vviews(r->Ok_0.2@), raw: Seq::empty() };
            graph_at(old(graph_in).b(), old(graph_in).p(), g, descr.nb_layer as int, isfull(*descr)) && final(graph_in).p() == old(graph_in).p() + graph_len(g, descr.nb_layer as int, isfull(*descr))
                && (descr.nb_layer <= 16 ==> g.nb.len() == 16)
        }),
//@if !P13
        r is Ok,
//@endif
//@at start
    let ghost b0 = graph_in.b();
    let ghost p0 = graph_in.p();
    let ghost full = isfull(*descr);
    let ghost n = descr.nb_layer as int;
//@if !P13
    let ghost c = choose|g: Rec| #[trigger] graph_at(b0, p0, g, n, true);
    proof { assert(lists_at(b0, p0 + 17, c.nb, n, true)); }
//@endif
//@loop 1 it
    invariant b0 == graph_in.b(), full == isfull(*descr), n == descr.nb_layer, it.seq().len() == n, neighborhood@.len() == it.index(),
        num_at(b0, p0, MAGICPOINT), num_at(b0, p0 + 4, origin_id), num_at(b0, p0 + 12, p_id.0), num_at(b0, p0 + 13, p_id.1),
        lists_at(b0, p0 + 17, vviews(neighborhood@), it.index() as int, full), graph_in.p() == p0 + 17 + loff(vviews(neighborhood@), it.index() as int, full),
//@if !P13
        full, n <= 16, graph_at(b0, p0, c, n, true), lists_at(b0, p0 + 17, c.nb, n, true), forall|l: int| 0 <= l < it.index() ==> vviews(neighborhood@)[l] == #[trigger] c.nb[l],
//@endif
//@at loop-start 1
    let ghost q = graph_in.p();
    let ghost l0 = it.index() as int;
    let ghost was = vviews(neighborhood@);
//@if !P13
    proof {
        lemma_loff_ext(was, c.nb, l0, true);
        assert(list_at(b0, q, c.nb[l0], true));
    }
//@endif
//@at loop-end 1
    proof {
        let now = vviews(neighborhood@);
        lemma_loff_ext(was, now, l0, full);
        assert(now[l0].len() == nb_neighbours);
        assert forall|l: int| 0 <= l < l0 + 1 implies list_at(b0, p0 + 17 + loff(now, l, full), #[trigger] now[l], full) by {
            lemma_loff_ext(was, now, l, full);
            if l < l0 { assert(was[l] == now[l]); }
        }
    }
//@loop 2 jt
    invariant b0 == graph_in.b(), full == isfull(*descr), jt.seq().len() == nb_neighbours, neighborhood_l@.len() == jt.index(), q >= 0,
        num_at(b0, q, nb_neighbours), links_at(b0, q + 8, neighborhood_l@, jt.index() as int, full), graph_in.p() == q + 8 + upto(jt.index() as int, full),
//@if !P13
        full, list_at(b0, q, c.nb[l0], true), nb_neighbours == c.nb[l0].len(), neighborhood_l@ == c.nb[l0].take(jt.index() as int),
//@endif
//@if !P13
//@at loop-start 2
    let ghost j0 = jt.index() as int;
    proof { assert(link_at(b0, q + 8 + upto(j0, true), c.nb[l0][j0], true)); }
//@at loop-end 2
    proof { assert(neighborhood_l@ =~= c.nb[l0].take(j0 + 1)); }
//@at after-loop 2
    proof { assert(c.nb[l0].take(nb_neighbours as int) =~= c.nb[l0]); }
//@endif
//@at before-loop 3
    let ghost mid = vviews(neighborhood@);
//@loop 3 kt
    invariant n == descr.nb_layer, neighborhood@.len() == n + kt.index(), kt.seq().len() == (if n < 16 { 16 - n } else { 0 }), vviews(neighborhood@).take(n) == mid,
        forall|l: int| n <= l < neighborhood@.len() ==> (#[trigger] neighborhood@[l])@.len() == 0,
//@at loop-end 3
    proof { assert(vviews(neighborhood@).take(n) =~= mid); }
//@at after-loop 3
    proof {
        let fin = vviews(neighborhood@);
        lemma_loff_ext(mid, fin, n, full);
        assert forall|l: int| 0 <= l < n implies list_at(b0, p0 + 17 + loff(fin, l, full), #[trigger] fin[l], full) by {
            lemma_loff_ext(mid, fin, l, full);
            assert(fin.take(n)[l] == fin[l]); assert(mid[l] == fin[l]);
        }
    }
//@endfn
//@if P11
#[verifier::external_body]
fn vector_from_bytes<T: Clone>(bytes: &[u8]) -> (r: Result<Vec<T>>) requires false { unimplemented!() }
//@else
//@fn src/hnswio.rs vector_from_bytes
//@sub? std :: mem :: size_of :: < T > ( ) => vsize_of::<T>()
//@sub? Vec :: < T > :: with_capacity ( $x ) => vwith_capacity::<T>($x)
//@sub? std :: ptr :: copy_nonoverlapping ( bytes . as_ptr ( ) , v . as_mut_ptr ( ) as * mut u8 , $n ) => vcopy_into(bytes, &mut v, $n)
//@sub? v . set_len ( $n ) => vset_len(&mut v, $n)
//@ret r
//@spec
//@if !P13
    requires whole::<T>(bytes@)
//@endif
//@if !P13
    ensures r is Ok, raw_of(r->Ok_0@) == bytes@,
//@endif
//@at start
    proof { if size_of_t::<T>() > 0 { vstd::arithmetic::div_mod::lemma_fundamental_div_mod(bytes@.len() as int, size_of_t::<T>() as int); lemma_div_le(bytes@.len() as int, size_of_t::<T>() as int); } assert(bytes@.take(bytes@.len() as int) =~= bytes@); }
//@endfn
//@endif
//@fn src/hnswio.rs load_point_data
//@sub? bincode :: deserialize ( $x ) => vbincode($x)
//@ret r
//@spec
//@if !P13
    requires 
//@if P11
        nodata::<T>(),
//@endif
        descr.format_version == 4, exists|raw: Seq<u8>| #[trigger] data_at(old(data_in).b(), old(data_in).p(), origin_id, raw) && (nodata::<T>() || whole::<T>(raw)),
//@endif
    ensures final(data_in).b() == old(data_in).b(),
        r is Ok ==> exists|raw: Seq<u8>| #[trigger] data_at(old(data_in).b(), old(data_in).p(), origin_id, raw) && final(data_in).p() == old(data_in).p() + data_len(raw) && vec_ok(r->Ok_0@, raw),
//@if !P13
        r is Ok,
//@endif
//@at start
    let ghost b0 = data_in.b();
    let ghost p0 = data_in.p();
//@if !P13
    let ghost c = choose|raw: Seq<u8>| #[trigger] data_at(b0, p0, origin_id, raw) && (nodata::<T>() || whole::<T>(raw));
//@endif
//@at tail
    proof { assert(data_at(b0, p0, origin_id, v_serialized@)); }
//@endfn
//@fn src/hnswio.rs skip_point_data
//@ret r
//@spec
//@if !P13
    requires exists|raw: Seq<u8>| #[trigger] data_at(old(data_in).b(), old(data_in).p(), origin_id, raw),
//@endif
    ensures final(data_in).b() == old(data_in).b(),
        r is Ok ==> exists|raw: Seq<u8>| #[trigger] data_at(old(data_in).b(), old(data_in).p(), origin_id, raw) && final(data_in).p() == old(data_in).p() + data_len(raw),
//@if !P13
        r is Ok,
//@endif
//@at start
    let ghost b0 = data_in.b();
    let ghost p0 = data_in.p();
//@if !P13
    let ghost c = choose|raw: Seq<u8>| #[trigger] data_at(b0, p0, origin_id, raw);
//@endif
//@at tail
    proof { assert(data_at(b0, p0, origin_id, v_serialized@)); }
//@endfn
//@ghosttype &mut Heap<'b, T>
//@ghostarg Point::new Point::new_from_mmap load_point load_point_indexation load_hnsw load_hnsw_with_dist
impl<'b, T: Clone + Send + Sync + 'b> PointData<'b, T> {
//@fn src/hnsw.rs PointData::new_v
//@ret r
//@spec
    ensures r@ == v@
//@endfn
//@fn src/hnsw.rs PointData::new_s
//@ret r
//@spec
    ensures r@ == s@
//@endfn
}
impl<'b, T: Clone + Send + Sync> Point<'b, T> {
//@fn src/hnsw.rs Point::new
//@sub? RwLock :: new ( $x ) => RwLock::vnew($x, Tracked(hist__))
//@ret r
//@spec
    ensures r.data@ == v@, r.origin_id == origin_id, r.p_id == p_id, !old(hist__)@.dom().contains((*r.neighbours).id()),
        made(old(hist__)@, final(hist__)@, (*r.neighbours).id())
//@loop 1 it
    invariant neighbours@.len() == it.index(), it.seq().len() == 16, hist__@ == old(hist__)@, empty_lists(neighbours@)
//@endfn
//@fn src/hnsw.rs Point::new_from_mmap
//@sub? RwLock :: new ( $x ) => RwLock::vnew($x, Tracked(hist__))
//@ret r
//@spec
    ensures r.data@ == s@, r.origin_id == origin_id, r.p_id == p_id, !old(hist__)@.dom().contains((*r.neighbours).id()),
        made(old(hist__)@, final(hist__)@, (*r.neighbours).id())
//@loop 1 it
    invariant neighbours@.len() == it.index(), it.seq().len() == 16, hist__@ == old(hist__)@, empty_lists(neighbours@)
//@endfn
}
impl<'b, T: Clone + Send + Sync + 'b> PointIndexation<'b, T> {
//@fn src/hnsw.rs PointIndexation::get_data_dimension
//@ret r
//@spec
    ensures r == (if (*self.entry_point)@ is Some { (*self.entry_point)@->0.data@.len() } else { 0 })
//@endfn
}
impl ReloadOptions {
//@fn src/hnswio.rs Default for ReloadOptions::default
//@ret r
//@spec
    ensures !r.datamap, r.mmap_threshold == 0
//@endfn
//@fn src/hnswio.rs ReloadOptions::new
//@ret r
//@spec
    ensures r.datamap == datamap, r.mmap_threshold == 0
//@endfn
//@fn src/hnswio.rs ReloadOptions::set_mmap
//@ret r
//@spec
    ensures r == *final(self), r.datamap == val, r.mmap_threshold == old(self).mmap_threshold
//@endfn
//@fn src/hnswio.rs ReloadOptions::set_mmap_threshold
//@ret r
//@spec
    ensures r == *final(self), threshold == 0 ==> r == *old(self), threshold > 0 ==> r.datamap && r.mmap_threshold == threshold
//@endfn
//@fn src/hnswio.rs ReloadOptions::use_mmap
//@ret r
//@spec
    ensures r == (self.datamap, self.mmap_threshold)
//@endfn
}
impl LayerGenerator {
//@fn src/hnsw.rs LayerGenerator::new
//@sub? let scale = $x ; => let scale = varb();
//@ret r
//@spec
    ensures r.maxlevel == maxlevel
//@endfn
//@fn src/hnsw.rs LayerGenerator::new_with_scale
//@ret r
//@spec
    ensures r.maxlevel == maxlevel, r.scale == scale
//@endfn
}
impl HnswIo {
//@fn src/hnswio.rs HnswIo::new
//@ret r
//@spec
    ensures r.dir@ == directory@, r.basename@ == lit(basename@), !r.options.datamap, r.datamap is None, r.initialized
//@endfn
//@fn src/hnswio.rs HnswIo::new_with_options
//@ret r
//@spec
    ensures r.dir@ == directory@, r.basename@ == lit(basename@), r.options == options, r.datamap is None, r.initialized
//@endfn
//@fn src/hnswio.rs HnswIo::get_basename
//@sub? & str => &String
//@ret r
//@spec
    ensures r@ == self.basename@
//@endfn
//@fn src/hnswio.rs HnswIo::set_options
//@spec
    ensures final(self).options == options, final(self).dir == old(self).dir, final(self).basename == old(self).basename, final(self).datamap == old(self).datamap
//@endfn
//@fn src/hnswio.rs HnswIo::set_values
//@ret r
//@spec
    ensures r is Ok == !old(self).initialized, r is Err ==> *final(self) == *old(self),
        r is Ok ==> final(self).dir@ == directory@ && final(self).basename@ == basename@ && final(self).options == options && final(self).datamap is None && final(self).initialized
//@endfn
//@fn src/hnswio.rs HnswIo::load_point
//@sub? Ordering :: Relaxed => AtOrd {}
//@ret r
//@spec
//@if !P13
    requires 
//@if P11
        nodata::<T>(),
//@endif
        descr.format_version == 4, isfull(*descr), descr.nb_layer <= 16,
        exists|g: Rec| #[trigger] pair_at(old(graph_in).b(), old(graph_in).p(), old(data_in).b(), old(data_in).p(), g, descr.nb_layer as int, true) && readable::<T>(g) && (point_use_mmap ==> mapped::<T>(self.datamap, g)),
//@endif
    ensures final(graph_in).b() == old(graph_in).b(), final(data_in).b() == old(data_in).b(),
        r is Ok ==> exists|g: Rec| #[trigger] pair_at(old(graph_in).b(), old(graph_in).p(), old(data_in).b(), old(data_in).p(), g, descr.nb_layer as int, isfull(*descr)) && pt_ok(r->Ok_0.0, g) && vviews(r->Ok_0.1@) == g.nb
                && final(graph_in).p() == old(graph_in).p() + graph_len(g, descr.nb_layer as int, isfull(*descr)) && final(data_in).p() == old(data_in).p() + data_len(g.raw) && (descr.nb_layer <= 16 ==> g.nb.len() == 16),
        r is Ok ==> !old(hist__)@.dom().contains(lid(r->Ok_0.0)) && made(old(hist__)@, final(hist__)@, lid(r->Ok_0.0)),
//@if !P13
        r is Ok,
        forall|g: Rec| #[trigger] pair_at(old(graph_in).b(), old(graph_in).p(), old(data_in).b(), old(data_in).p(), g, descr.nb_layer as int, true) && g.nb.len() == 16
            ==> pt_ok(r->Ok_0.0, g) && vviews(r->Ok_0.1@) == g.nb && final(graph_in).p() == old(graph_in).p() + graph_len(g, descr.nb_layer as int, true) && final(data_in).p() == old(data_in).p() + data_len(g.raw),
//@endif
//@at start
    let ghost gb = graph_in.b();
    let ghost gp = graph_in.p();
    let ghost db = data_in.b();
    let ghost dp = data_in.p();
    let ghost n = descr.nb_layer as int;
    let ghost full = isfull(*descr);
//@if !P13
    let ghost c = choose|g: Rec| #[trigger] pair_at(gb, gp, db, dp, g, n, true) && readable::<T>(g) && (point_use_mmap ==> mapped::<T>(self.datamap, g));
    proof { assert(graph_at(gb, gp, c, n, true)); assert(data_at(db, dp, c.id, c.raw)); }
//@endif
//@at tail
    proof {
        let raw = choose|raw: Seq<u8>| #[trigger] data_at(db, dp, origin_id, raw) && data_in.p() == dp + data_len(raw)
//@if !P13
            && (!point_use_mmap ==> vec_ok(tail__->Ok_0.0.data@, raw))
//@endif
        ;
        let g = Rec { id: origin_id, p_id: p_id, nb: vviews(tail__->Ok_0.1@), raw: raw };
        assert(graph_at(gb, gp, g, n, full));
        lemma_loff_ext(g.nb, vviews(tail__->Ok_0.1@), n, full);
//@if !P13
        assert(data_at(db, dp, c.id, c.raw) && data_at(db, dp, c.id, raw));
        assert(raw == c.raw);
//@endif
        assert(pair_at(gb, gp, db, dp, g, n, full));
//@if !P13
        assert forall|g2: Rec| #[trigger] pair_at(gb, gp, db, dp, g2, n, true) && g2.nb.len() == 16 implies g2 == g by { lemma_pair_unique(gb, gp, db, dp, g, g2, n); }
//@endif
    }
//@endfn
//@fn src/hnswio.rs HnswIo::load_point_indexation
//@sub? std :: any :: type_name :: < T > ( ) => vtype_name::<T>()
//@sub? Arc :: clone => varc_clone
//@attr #[verifier::exec_allows_no_decreases_clause] #[verifier::rlimit(40)]
//@ret r
//@spec
//@if !P13
    requires 
//@if P11
        nodata::<T>(),
//@endif
        descr.format_version == 4, isfull(*descr), descr.nb_layer == 16, nodata::<T>() || tname::<T>() == descr.t_name@,
        exists|s: Seq<Seq<Rec>>, ep: (usize, PointId)| #[trigger] index_at(old(graph_in).b(), old(graph_in).p(), old(data_in).b(), old(data_in).p(), s, ep, 16, true) && coherent::<T>(s, ep) && descr.nb_point == total(s, s.len() as int) && (self.options.datamap ==> map_good::<T>(self.datamap, s)),
//@endif
    ensures final(graph_in).b() == old(graph_in).b(), final(data_in).b() == old(data_in).b(),
        r is Ok ==> (nodata::<T>() || tname::<T>() == descr.t_name@) && r->Ok_0.like(*descr)
            && exists|s: Seq<Seq<Rec>>, ep: (usize, PointId)| #[trigger] index_at(old(graph_in).b(), old(graph_in).p(), old(data_in).b(), old(data_in).p(), s, ep, descr.nb_layer as int, isfull(*descr))
                && r->Ok_0.holds(s, ep)
//@if !P13
                && coherent::<T>(s, ep) && all_linked(final(hist__)@, pviews((*r->Ok_0.points_by_layer)@@), s) && (*r->Ok_0.nb_point)@ == total(s, s.len() as int) && descr.nb_point == total(s, s.len() as int)
//@endif
        ,
//@if !P13
        r is Ok,
//@endif
//@at start
    hide(graph_at); hide(data_at); hide(recs_at); hide(layers_at); hide(index_at); hide(map_has); hide(ids_ok); hide(layer_ok); hide(pts_ok); hide(goff); hide(doff); hide(lgoff); hide(ldoff);
    hide(pair_at); hide(at);
//@if !P13
    hide(fresh); hide(linking); hide(coherent); hide(map_good);
//@endif
    let ghost gb = graph_in.b();
    let ghost gp0 = graph_in.p();
    let ghost db = data_in.b();
    let ghost dp0 = data_in.p();
    let ghost n = descr.nb_layer as int;
    let ghost full = isfull(*descr);
    let ghost mut recs: Seq<Seq<Rec>> = Seq::empty();
    let ghost mut own: Map<int, (int, int)> = Map::empty();
//@if !P13
    let ghost (c, cep) = choose|s: Seq<Seq<Rec>>, ep: (usize, PointId)| #[trigger] index_at(gb, gp0, db, dp0, s, ep, 16, true) && coherent::<T>(s, ep) && descr.nb_point == total(s, s.len() as int) && (self.options.datamap ==> map_good::<T>(self.datamap, s));
    proof { lemma_c_end(gb, gp0, db, dp0, c, cep, 16, true); }
//@endif
//@at before-loop 1
    proof {
        lemma_no_layers(gb, gp0 + 1, db, dp0, n, full);
        lemma_map_none(neighbourhood_map@);
        reveal(pts_ok);
//@if !P13
        assert(nb_layer == c.len());
        assert(recs =~= c.take(0));
        assert(total(c, c.len() as int) <= i64::MAX) by { reveal(coherent); }
        reveal(fresh);
//@endif
    }
//@loop 1 it
    invariant 
//@if P11
        nodata::<T>(),
//@endif
        gb == graph_in.b(), db == data_in.b(), gb == old(graph_in).b(), db == old(data_in).b(), n == descr.nb_layer, full == isfull(*descr), it.seq().len() == nb_layer, nb_layer <= 16, recs.len() == it.index(), points_by_layer@.len() == it.index(),
        num_at(gb, gp0, nb_layer), layers_at(gb, gp0 + 1, db, dp0, recs, it.index() as int, n, full),
        graph_in.p() == gp0 + 1 + lgoff(recs, it.index() as int, n, full), data_in.p() == dp0 + ldoff(recs, it.index() as int),
        map_has(neighbourhood_map@, recs.push(Seq::<Rec>::empty())), ids_ok(recs), pts_ok(pviews(points_by_layer@), recs),
//@if !P13
        n == 16, full, descr.format_version == 4, c.len() == nb_layer, recs == c.take(it.index() as int), layers_at(gb, gp0 + 1, db, dp0, c, c.len() as int, 16, true), coherent::<T>(c, cep), (self.options.datamap ==> map_good::<T>(self.datamap, c)),
        descr.nb_point == total(c, c.len() as int), nb_points_loaded == total(c, it.index() as int), nb_still_to_load == descr.nb_point - nb_points_loaded, use_mmap ==> self.options.datamap && self.datamap is Some,
        fresh(hist__@, own, pviews(points_by_layer@)), dom_le(own, hist__@),
//@endif
//@at loop-start 1
    let ghost li = l as int;
    let ghost lg = graph_in.p();
    let ghost ld = data_in.p();
    let ghost mut cur: Seq<Rec> = Seq::empty();
    let ghost pv0 = pviews(points_by_layer@);
    proof {
        lemma_map_open(neighbourhood_map@, recs);
        lemma_lgoff_ge(recs, li, n, full);
        lemma_no_recs(gb, lg + 12, db, ld, li, n, full);
        reveal(layer_ok);
//@if !P13
        lemma_c_layer(gb, gp0 + 1, db, dp0, c, li, 16, true);
        assert(cur =~= c[li].take(0));
        assert(fresh(hist__@, own, pv0.push(Seq::<Arc<Point<'b, T>>>::empty()))) by { reveal(fresh); }
//@endif
    }
//@at before-loop 2
    proof {
        assert(vlayer@ =~= Seq::empty());
//@if !P13
        assert(nbpoints == c[li].len());
        lemma_total_le(c, li + 1, c.len() as int);
//@endif
    }
//@loop 2 jt
    invariant 
//@if P11
        nodata::<T>(),
//@endif
        gb == graph_in.b(), db == data_in.b(), gb == old(graph_in).b(), db == old(data_in).b(), n == descr.nb_layer, full == isfull(*descr), nb_layer <= 16, jt.seq().len() == nbpoints, l == li, li < nb_layer, recs.len() == li, cur.len() == jt.index(), vlayer@.len() == jt.index(),
        recs_at(gb, lg + 12, db, ld, cur, li, jt.index() as int, n, full), graph_in.p() == lg + 12 + goff(cur, jt.index() as int, n, full), data_in.p() == ld + doff(cur, jt.index() as int),
        map_has(neighbourhood_map@, recs.push(cur)), ids_ok(recs.push(cur)), layer_ok(vlayer@, cur), lg >= 0,
//@if !P13
        n == 16, full, descr.format_version == 4, c.len() == nb_layer, nbpoints == c[li].len(), cur == c[li].take(jt.index() as int), recs_at(gb, lg + 12, db, ld, c[li], li, c[li].len() as int, 16, true), coherent::<T>(c, cep), (self.options.datamap ==> map_good::<T>(self.datamap, c)),
        descr.nb_point == total(c, c.len() as int), nb_points_loaded == total(c, li) + jt.index(), nb_still_to_load == descr.nb_point - nb_points_loaded, total(c, li) + nbpoints <= total(c, c.len() as int), use_mmap ==> self.options.datamap && self.datamap is Some,
        fresh(hist__@, own, pv0.push(vlayer@)), dom_le(own, hist__@), pv0.len() == li, total(c, li) >= 0,
//@endif
//@at loop-start 2
    let ghost ri = r as int;
    let ghost pg = graph_in.p();
    let ghost pd = data_in.p();
    let ghost h0 = hist__@;
    let ghost m0 = neighbourhood_map@;
    let ghost vl0 = vlayer@;
    proof {
        lemma_goff_ge(cur, ri, n, full);
//@if !P13
        lemma_c_rec::<T>(gb, lg + 12, db, ld, c, cep, li, ri, 16, true);
        assert(mapped::<T>(self.datamap, c[li][ri]) || !use_mmap) by { reveal(map_good); }
//@endif
    }
//@at loop-end 2
    proof {
        let p = vlayer@[ri];
        let g = choose|g: Rec| #[trigger] pair_at(gb, pg, db, pd, g, n, full) && pt_ok(p, g) && has(neighbourhood_map@, g) && graph_in.p() == pg + graph_len(g, n, full) && data_in.p() == pd + data_len(g.raw) && (n <= 16 ==> g.nb.len() == 16);
        lemma_pair_fits(gb, pg, db, pd, g, n, full);
        assert(graph_in.b().len() <= i64::MAX);
        assert(g.p_id == PointId(li as u8, ri as i32));
        let now = cur.push(g);
        lemma_rec_push(gb, lg + 12, db, ld, cur, g, li, n, full);
        lemma_layer_ok_push(vl0, cur, p, g);
        assert(vlayer@ =~= vl0.push(p));
        lemma_map_add(m0, neighbourhood_map@[g.p_id], recs, cur, g);
//@if !P13
        lemma_pair_unique(gb, pg, db, pd, g, c[li][ri], 16);
        assert(now =~= c[li].take(ri + 1));
        lemma_fresh_add(h0, hist__@, own, pv0, vl0, p);
        own = own.insert(lid(p), (li, ri));
//@endif
        cur = now;
    }
//@at loop-end 1
    proof {
        let now = recs.push(cur);
        lemma_layer_push(gb, gp0 + 1, db, dp0, recs, cur, n, full);
        lemma_pts_ok_push(pv0, recs, vlayer@, cur);
        assert(pviews(points_by_layer@) =~= pv0.push(vlayer@));
        lemma_map_next(neighbourhood_map@, now);
//@if !P13
        assert(cur =~= c[li]);
        assert(now =~= c.take(li + 1));
//@endif
        recs = now;
    }
//@at before-loop 3
    let ghost pv = pviews(points_by_layer@);
//@if !P13
    proof { assert(recs =~= c); assert(ids_ok(recs)) by { reveal(coherent); }
assert forall|e: Seq<&(PointId, Vec<Vec<Neighbour>>)>| #[trigger] linking(hist__@, own, pv, recs, e, 0) by { reveal(linking); reveal(fresh); reveal(pts_ok); reveal(layer_ok); }
        assert(named(recs, cep.1)) by { reveal(coherent); }
        assert(cep.1.0 < pv.len() && 0 <= cep.1.1 < pv[cep.1.0 as int].len()) by { reveal(pts_ok); reveal(layer_ok); assert(layer_ok(pv[cep.1.0 as int], recs[cep.1.0 as int])); } }
//@endif
    let ghost pe = graph_in.p();
    proof { lemma_map_done(neighbourhood_map@, recs); }
//@loop 3 kt
    invariant gb == graph_in.b(), db == data_in.b(), pe == graph_in.p(), map_entries(kt.seq(), neighbourhood_map@),
//@if !P13
        map_has(neighbourhood_map@, recs), pv == pviews(points_by_layer@), pts_ok(pv, recs), coherent::<T>(recs, cep), linking(hist__@, own, pv, recs, kt.seq(), kt.index() as int),
        nbp == kt.index(), kt.seq().len() <= usize::MAX,
//@at loop-start 3
    let ghost k0 = kt.index() as int;
    let ghost la = p_id.0 as int;
    let ghost ra = p_id.1 as int;
    let ghost h2 = hist__@;
    proof {
        reveal(map_has); reveal(ids_ok); reveal(coherent); reveal(linking); reveal(pts_ok); reveal(layer_ok);
        assert(kt.seq()[k0].0 == *p_id && kt.seq()[k0].1 == *neighbours);
        assert(neighbourhood_map@.dom().contains(*p_id)); assert(named(recs, *p_id)); assert(has(neighbourhood_map@, recs[la][ra]));
        assert(recs[la][ra].p_id == PointId(la as u8, ra as i32));
        assert(layer_ok(pv[la], recs[la]));
        assert(own_at(h2, own, pv[la][ra], la, ra));
        assert(!in_pre(kt.seq(), k0, PointId(la as u8, ra as i32)));
        assert(rec_ok::<T>(recs, recs[la][ra]));
    }
    let ghost id = lid(pv[la][ra]);
    let ghost nb = recs[la][ra].nb;
//@at before-loop 4
    proof { assert(h2 =~= h2.insert(id, h2[id])); assert(*point == pv[la][ra]); }
//@at loop-end 3
    proof {
        reveal(linking);
        assert forall|l: int, r: int| 0 <= l < pv.len() && 0 <= r < pv[l].len() implies own_at(hist__@, own, #[trigger] pv[l][r], l, r)
            && (if in_pre(kt.seq(), k0 + 1, PointId(l as u8, r as i32)) { lists_done(hist__@[lid(pv[l][r])], recs[l][r].nb, pv) } else { is_empties(hist__@[lid(pv[l][r])]) }) by {
            assert(own_at(h2, own, pv[l][r], l, r));
            assert(layer_ok(pv[l], recs[l]));
            assert(recs[l][r].p_id == PointId(l as u8, r as i32));
            let p = PointId(l as u8, r as i32);
            if in_pre(kt.seq(), k0 + 1, p) { let i = choose|i: int| 0 <= i < k0 + 1 && (#[trigger] kt.seq()[i]).0 == p; if i < k0 { assert(in_pre(kt.seq(), k0, p)); } }
            if in_pre(kt.seq(), k0, p) { let i = choose|i: int| 0 <= i < k0 && (#[trigger] kt.seq()[i]).0 == p; assert(0 <= i < k0 + 1); }
            if l == la && r == ra { assert(kt.seq()[k0].0 == p); assert(in_pre(kt.seq(), k0 + 1, p)); }
        }
    }
//@at after-loop 3
    proof {
        reveal(linking); reveal(map_has); reveal(ids_ok); reveal(pts_ok); reveal(layer_ok);
        assert forall|l: int, r: int| 0 <= l < pv.len() && 0 <= r < pv[l].len() implies lists_done(hist__@[lid(#[trigger] pv[l][r])], recs[l][r].nb, pv) by {
            assert(layer_ok(pv[l], recs[l]));
            assert(has(neighbourhood_map@, recs[l][r]));
            assert(recs[l][r].p_id == PointId(l as u8, r as i32));
        }
        assert(all_linked(hist__@, pv, recs));
    }
//@loop 4 mt
    invariant gb == graph_in.b(), db == data_in.b(), pe == graph_in.p(), mt.seq().len() == 16, vviews(neighbours@) == nb, nb.len() == 16, *point == pv[la][ra], id == lid(pv[la][ra]), pv == pviews(points_by_layer@), pts_ok(pv, recs), nb == recs[la][ra].nb, rec_ok::<T>(recs, recs[la][ra]), ids_ok(recs),
        hist__@ == h2.insert(id, hist__@[id]), hist__@[id]@.len() == 16, forall|q: int| 0 <= q < mt.index() ==> linked((#[trigger] hist__@[id]@[q])@, nb[q], pv), forall|q: int| mt.index() <= q < 16 ==> (#[trigger] hist__@[id]@[q])@.len() == 0,
//@at loop-start 4
    let ghost h3 = hist__@;
    let ghost lb = l as int;
//@loop 5 nt
    invariant gb == graph_in.b(), db == data_in.b(), pe == graph_in.p(), lb < 16, l == lb, nt.seq().len() == nb[lb].len(), forall|k: int| 0 <= k < nb[lb].len() ==> *(#[trigger] nt.seq()[k]) == nb[lb][k], *point == pv[la][ra], id == lid(pv[la][ra]), pv == pviews(points_by_layer@), pts_ok(pv, recs), nb == recs[la][ra].nb, nb.len() == 16, rec_ok::<T>(recs, recs[la][ra]),
        hist__@ == h3.insert(id, hist__@[id]), hist__@[id]@.len() == 16, forall|q: int| 0 <= q < 16 && q != lb ==> #[trigger] hist__@[id]@[q] == h3[id]@[q], built(hist__@[id]@[lb]@, nb[lb], nt.index() as int, pv), ids_ok(recs),
//@at loop-start 5
    let ghost n0 = nt.index() as int;
    let ghost h4 = hist__@;
    proof { reveal(pts_ok); reveal(layer_ok); assert(*n == nb[lb][n0]); assert(link_ok(recs, nb[lb][n0])); assert(named(recs, n.p_id)); assert(layer_ok(pv[n.p_id.0 as int], recs[n.p_id.0 as int])); }
//@at after-loop 5
    let ghost pre = hist__@[id]@[lb]@;
    proof {
        assert forall|i: int| 0 <= i < pre.len() implies !(#[trigger] pre[i]).onan() by { assert(lnk(pre[i], nb[lb][i], pv)); assert(link_ok(recs, nb[lb][i])); }
    }
//@at loop-end 4
    proof { assert(built(pre, nb[lb], nb[lb].len() as int, pv)); assert(linked(hist__@[id]@[lb]@, nb[lb], pv)); }
//@endif
//@at tail
    proof {
        let ep = (origin_id, PointId(layer, rank_in_l));
        lemma_c_made(gb, gp0, db, dp0, recs, ep, n, full);
        assert(named(recs, ep.1)) by { reveal(pts_ok); reveal(layer_ok); reveal(ids_ok); assert(layer_ok(pv[layer as int], recs[layer as int])); assert(recs[layer as int][rank_in_l.uz() as int].p_id.1 <= i32::MAX); }
    }
//@if P13
//@loop 4
    invariant gb == graph_in.b(), db == data_in.b(), pe == graph_in.p(),
//@loop 5
    invariant gb == graph_in.b(), db == data_in.b(), pe == graph_in.p(),
//@endif
//@endfn
//@fn src/hnswio.rs HnswIo::init
//@sub? BufReader :: new ( $x ) => VRead::vnew($x)
//@ret r
//@spec
//@if !P13
    requires openable(self.dir@ + seq![self.basename@ + lit(".hnsw.graph"@)]), openable(self.dir@ + seq![self.basename@ + lit(".hnsw.data"@)]),
        exists|d: Description| descr_ok(d) && #[trigger] descr_at(gfile(self.dir@, self.basename@), 0, d),
//@endif
    ensures r is Ok ==> r->Ok_0.graphfile.b() == gfile(self.dir@, self.basename@) && r->Ok_0.datafile.b() == dfile(self.dir@, self.basename@)
            && r->Ok_0.datafile.p() == 0 && descr_at(r->Ok_0.graphfile.b(), 0, r->Ok_0.descr) && r->Ok_0.graphfile.p() == descr_len(r->Ok_0.descr),
//@if !P13
        r is Ok,
//@endif
//@if !P13
//@at after 1 let data_in = BufReader :: new ( datafile ) ;
    proof {
        let c = choose|d: Description| descr_ok(d) && #[trigger] descr_at(gfile(self.dir@, self.basename@), 0, d);
        assert(graph_in.b() == gfile(self.dir@, self.basename@));
        assert(descr_at(graph_in.b(), graph_in.p(), c));
    }
//@endif
//@endfn
//@fn src/hnswio.rs HnswIo::load_hnsw
//@sub? SystemTime :: now ( ) => ()
//@sub? type_name :: < D > ( ) => vtype_name::<D>()
//@sub? Vec < & str > => Vec<VStr>
//@sub? start_t . elapsed ( ) . unwrap ( ) . as_secs ( ) as f32 => 0.0f32
//@sub? start_t . elapsed ( ) . vunwrap ( ) . as_secs ( ) as f32 => 0.0f32
//@sub? D :: default ( ) => vdefault::<D>()
//@ret r
//@spec
//@if !P13
    requires 
//@if P11
        nodata::<T>(),
//@endif
        openable(old(self).dir@ + seq![old(self).basename@ + lit(".hnsw.graph"@)]), openable(old(self).dir@ + seq![old(self).basename@ + lit(".hnsw.data"@)]), 
        exists|d: Description, s: Seq<Seq<Rec>>, ep: (usize, PointId)| #[trigger] whole_dump::<T, D>(gfile(old(self).dir@, old(self).basename@), dfile(old(self).dir@, old(self).basename@), d, s, ep) && (old(self).options.datamap ==> map_good::<T>(old(self).datamap, s) && map_needs::<T>(d, dfile(old(self).dir@, old(self).basename@), s)),
//@endif
    ensures r is Ok ==> exists|d: Description, s: Seq<Seq<Rec>>, ep: (usize, PointId)| #[trigger] dump_at(gfile(old(self).dir@, old(self).basename@), dfile(old(self).dir@, old(self).basename@), d, s, ep)
        && r->Ok_0.loaded(d, s, ep) && (nodata::<T>() || (tname::<T>() == d.t_name@ && short(tname::<D>()) == short(d.distname@)))
//@if opt
        && (final(self).datamap is Some ==> r->Ok_0.datamap_opt)
//@endif
//@if !P13
        && r->Ok_0.dist_f == vdefault_of::<D>()
        && whole_dump::<T, D>(gfile(old(self).dir@, old(self).basename@), dfile(old(self).dir@, old(self).basename@), d, s, ep) && all_linked(final(hist__)@, pviews((*r->Ok_0.layer_indexed_points.points_by_layer)@@), s)
        && (*r->Ok_0.layer_indexed_points.nb_point)@ == total(s, s.len() as int),
        r is Ok
//@endif
//@at start
    hide(index_at); hide(descr_at); hide(pts_ok); hide(ids_ok); hide(at); hide(layer_ok);
    let ghost gb = gfile(self.dir@, self.basename@);
    let ghost db = dfile(self.dir@, self.basename@);
//@if !P13
    let ghost (c, cs, cep) = choose|d: Description, s: Seq<Seq<Rec>>, ep: (usize, PointId)| #[trigger] whole_dump::<T, D>(gb, db, d, s, ep) && (self.options.datamap ==> map_good::<T>(self.datamap, s) && map_needs::<T>(d, db, s));
    proof { assert(descr_ok(c) && descr_at(gb, 0, c)); assert(num_at(db, 0, MAGICDATAP) && num_at(db, 4, c.dimension)); if self.options.datamap { lemma_dump_map::<T, D>(gb, db, c, cs, cep); } }
//@endif
//@if !P13
//@at after 1 let description = init . descr ;
    proof { lemma_descr_unique(gb, 0, description, c); assert(index_at(gb, descr_len(description), db, 12, cs, cep, 16, true)); }
//@endif
//@at tail
    proof {
        let (s, ep) = choose|s: Seq<Seq<Rec>>, ep: (usize, PointId)| #[trigger] index_at(gb, descr_len(description), db, 12, s, ep, description.nb_layer as int, isfull(description)) && layer_point_indexation.holds(s, ep)
//@if !P13
            && coherent::<T>(s, ep) && all_linked(hist__@, pviews((*layer_point_indexation.points_by_layer)@@), s) && (*layer_point_indexation.nb_point)@ == total(s, s.len() as int) && description.nb_point == total(s, s.len() as int)
//@endif
            ;
        assert(dump_at(gb, db, description, s, ep));
//@if !P13
        assert(whole_dump::<T, D>(gb, db, description, s, ep));
//@endif
    }
//@if !P13
//@at before 1 let layer_point_indexation
    proof { assert(self.options.datamap ==> map_good::<T>(self.datamap, cs)); assert(index_at(graph_in.b(), graph_in.p(), data_in.b(), data_in.p(), cs, cep, 16, true)); }
//@endif
//@endfn
//@fn src/hnswio.rs HnswIo::load_hnsw_with_dist
//@sub? SystemTime :: now ( ) => ()
//@sub? type_name :: < D > ( ) => vtype_name::<D>()
//@sub? Vec < & str > => Vec<VStr>
//@ret r
//@spec
//@if !P13
    requires 
//@if P11
        nodata::<T>(),
//@endif
        openable(self.dir@ + seq![self.basename@ + lit(".hnsw.graph"@)]), openable(self.dir@ + seq![self.basename@ + lit(".hnsw.data"@)]), 
        exists|d: Description, s: Seq<Seq<Rec>>, ep: (usize, PointId)| #[trigger] whole_dump::<T, D>(gfile(self.dir@, self.basename@), dfile(self.dir@, self.basename@), d, s, ep) && (self.options.datamap ==> map_good::<T>(self.datamap, s))
            && (nodata::<T>() || tname::<D>() == d.distname@),
//@endif
    ensures r is Ok ==> exists|d: Description, s: Seq<Seq<Rec>>, ep: (usize, PointId)| #[trigger] dump_at(gfile(self.dir@, self.basename@), dfile(self.dir@, self.basename@), d, s, ep)
        && r->Ok_0.loaded(d, s, ep) && (nodata::<T>() || (tname::<T>() == d.t_name@ && tname::<D>() == d.distname@))
//@if opt
        && (self.datamap is Some ==> r->Ok_0.datamap_opt)
//@endif
//@if !P13
        && r->Ok_0.dist_f == f
        && whole_dump::<T, D>(gfile(self.dir@, self.basename@), dfile(self.dir@, self.basename@), d, s, ep) && all_linked(final(hist__)@, pviews((*r->Ok_0.layer_indexed_points.points_by_layer)@@), s)
        && (*r->Ok_0.layer_indexed_points.nb_point)@ == total(s, s.len() as int),
        r is Ok
//@endif
//@at start
    hide(index_at); hide(descr_at); hide(pts_ok); hide(ids_ok); hide(at); hide(layer_ok);
    let ghost gb = gfile(self.dir@, self.basename@);
    let ghost db = dfile(self.dir@, self.basename@);
//@if !P13
    let ghost (c, cs, cep) = choose|d: Description, s: Seq<Seq<Rec>>, ep: (usize, PointId)| #[trigger] whole_dump::<T, D>(gb, db, d, s, ep) && (self.options.datamap ==> map_good::<T>(self.datamap, s)) && (nodata::<T>() || tname::<D>() == d.distname@);
    proof { assert(descr_ok(c) && descr_at(gb, 0, c)); assert(num_at(db, 0, MAGICDATAP) && num_at(db, 4, c.dimension)); }
//@endif
//@if !P13
//@at after 1 let description = init . descr ;
    proof { lemma_descr_unique(gb, 0, description, c); assert(index_at(gb, descr_len(description), db, 12, cs, cep, 16, true)); }
//@endif
//@at tail
    proof {
        let (s, ep) = choose|s: Seq<Seq<Rec>>, ep: (usize, PointId)| #[trigger] index_at(gb, descr_len(description), db, 12, s, ep, description.nb_layer as int, isfull(description)) && layer_point_indexation.holds(s, ep)
//@if !P13
            && coherent::<T>(s, ep) && all_linked(hist__@, pviews((*layer_point_indexation.points_by_layer)@@), s) && (*layer_point_indexation.nb_point)@ == total(s, s.len() as int) && description.nb_point == total(s, s.len() as int)
//@endif
            ;
        assert(dump_at(gb, db, description, s, ep));
//@if !P13
        assert(whole_dump::<T, D>(gb, db, description, s, ep));
//@endif
    }
//@endfn
}
}
}
