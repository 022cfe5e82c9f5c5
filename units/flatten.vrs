#![allow(unused)]
use vstd::prelude::*;
//@include pre_float.vrs
pub mod sp {
use vstd::prelude::*;
use std::sync::Arc;
use core::cmp::Ordering;
use super::fl::*;
verus! {
broadcast use {super::fl::ax_f32_cmp, super::fl::ax_f32_eq, super::fl::ax_f32_obeys, super::fl::ax_f32_zero};
//@include pre_std.vrs
//@include pre_lock_frozen.vrs
//@include types.vrs
//@include spec_iter.vrs
//@struct src/flatten.rs FlatPoint
//@struct src/flatten.rs FlatNeighborhood
impl HeapOrd for Neighbour {
    open spec fn okey(&self) -> int { key(self.distance) }
    open spec fn onan(&self) -> bool { is_nan(self.distance) }
}
impl<'b, T: Clone + Send + Sync> Point<'b, T> {
    pub open spec fn nb(&self, l: int) -> Seq<Arc<PointWithOrder<'b, T>>> { (*self.neighbours)@@[l]@ }
    pub open spec fn nlayers(&self) -> int { (*self.neighbours)@@.len() as int }
}
// a link, as the client sees it
pub open spec fn link<'b, T: Clone + Send + Sync>(e: Arc<PointWithOrder<'b, T>>) -> Neighbour {
    Neighbour { d_id: e.point_ref.origin_id, distance: e.dist_to_ref, p_id: e.point_ref.p_id }
}
pub open spec fn links<'b, T: Clone + Send + Sync>(s: Seq<Arc<PointWithOrder<'b, T>>>) -> Seq<Neighbour> { Seq::new(s.len(), |i: int| link(s[i])) }
// all links of the first n layers
pub open spec fn links_upto<'b, T: Clone + Send + Sync>(p: Point<'b, T>, n: int) -> Seq<Neighbour>
    decreases n
{ if n <= 0 { Seq::empty() } else { links_upto(p, n - 1) + links(p.nb(n - 1)) } }
pub open spec fn all_links<'b, T: Clone + Send + Sync>(p: Point<'b, T>) -> Seq<Neighbour> { links_upto(p, p.nlayers()) }
pub open spec fn no_nan<'b, T: Clone + Send + Sync>(p: Point<'b, T>) -> bool {
    forall|l: int, k: int| 0 <= l < p.nlayers() && 0 <= k < p.nb(l).len() ==> !is_nan((#[trigger] p.nb(l)[k]).dist_to_ref)
}
pub open spec fn by_distance(s: Seq<Neighbour>) -> bool { forall|i: int, j: int| 0 <= i <= j < s.len() ==> key((#[trigger] s[i]).distance) <= key((#[trigger] s[j]).distance) }
// the flat point of p: all its links, sorted
pub open spec fn flat_of<'b, T: Clone + Send + Sync>(f: FlatPoint, p: Point<'b, T>) -> bool {
    f.origin_id == p.origin_id && f.p_id == p.p_id && f.neighbours@.to_multiset() == all_links(p).to_multiset() && by_distance(f.neighbours@)
}
pub open spec fn has_client<'b, T: Clone + Send + Sync>(s: Seq<Arc<Point<'b, T>>>, id: DataId) -> bool { exists|i: int| 0 <= i < s.len() && (#[trigger] s[i]).origin_id == id }
// what a flat view of the points s is: every client id maps to the flat point of a point with that id (the last one), nothing else is mapped
pub open spec fn flat_view<'b, T: Clone + Send + Sync>(m: Map<DataId, FlatPoint>, s: Seq<Arc<Point<'b, T>>>) -> bool {
    &&& forall|id: DataId| #[trigger] m.dom().contains(id) <==> has_client(s, id)
    &&& forall|id: DataId| #[trigger] m.dom().contains(id) ==> exists|i: int| 0 <= i < s.len() && (#[trigger] s[i]).origin_id == id && flat_of(m[id], *s[i])
}
}
}
pub mod lem {
use vstd::prelude::*;
use std::sync::Arc;
use super::fl::*;
use super::sp::*;
verus! {
//@include lem_iter.vrs
// once every point has been inserted: with distinct client ids, exactly the property
pub broadcast proof fn lemma_push_client<'b, T: Clone + Send + Sync>(s: Seq<Arc<Point<'b, T>>>, p: Arc<Point<'b, T>>, id: DataId)
    ensures #[trigger] has_client(s.push(p), id) == (has_client(s, id) || p.origin_id == id)
{
    if has_client(s, id) { let i = choose|i: int| 0 <= i < s.len() && (#[trigger] s[i]).origin_id == id; assert(s.push(p)[i] == s[i]); }
    if p.origin_id == id { assert(s.push(p)[s.len() as int] == p); }
}
pub proof fn lemma_view_push<'b, T: Clone + Send + Sync>(m: Map<DataId, FlatPoint>, s: Seq<Arc<Point<'b, T>>>, p: Arc<Point<'b, T>>, f: FlatPoint)
    requires flat_view(m, s), flat_of(f, *p)
    ensures flat_view(m.insert(p.origin_id, f), s.push(p))
{
    broadcast use lemma_push_client;
    let m2 = m.insert(p.origin_id, f);
    let s2 = s.push(p);
    assert forall|id: DataId| #[trigger] m2.dom().contains(id) <==> has_client(s2, id) by { assert(m2.dom().contains(id) <==> m.dom().contains(id) || id == p.origin_id); }
    assert forall|id: DataId| #[trigger] m2.dom().contains(id) implies exists|i: int| 0 <= i < s2.len() && (#[trigger] s2[i]).origin_id == id && flat_of(m2[id], *s2[i]) by {
        if id == p.origin_id { assert(s2[s.len() as int] == p); }
        else {
            assert(m.dom().contains(id));
            let i = choose|i: int| 0 <= i < s.len() && (#[trigger] s[i]).origin_id == id && flat_of(m[id], *s[i]);
            assert(s2[i] == s[i]);
        }
    }
}
pub proof fn lemma_view_unique<'b, T: Clone + Send + Sync>(m: Map<DataId, FlatPoint>, s: Seq<Arc<Point<'b, T>>>)
    requires flat_view(m, s), forall|i: int, j: int| 0 <= i < j < s.len() ==> (#[trigger] s[i]).origin_id != (#[trigger] s[j]).origin_id
    ensures forall|i: int| 0 <= i < s.len() ==> m.dom().contains((#[trigger] s[i]).origin_id) && flat_of(m[s[i].origin_id], *s[i]),
        forall|id: DataId| #[trigger] m.dom().contains(id) ==> has_client(s, id)
{
    assert forall|i: int| 0 <= i < s.len() implies m.dom().contains((#[trigger] s[i]).origin_id) && flat_of(m[s[i].origin_id], *s[i]) by {
        let id = s[i].origin_id;
        assert(has_client(s, id)) by { assert(s[i].origin_id == id); }
        assert(m.dom().contains(id));
        let k = choose|k: int| 0 <= k < s.len() && (#[trigger] s[k]).origin_id == id && flat_of(m[id], *s[k]);
        assert(k == i);
    }
}
// no NaN among the links
pub proof fn lemma_links_nan<'b, T: Clone + Send + Sync>(p: Point<'b, T>, n: int)
    requires no_nan(p), 0 <= n <= p.nlayers()
    ensures forall|i: int| 0 <= i < links_upto(p, n).len() ==> !is_nan((#[trigger] links_upto(p, n)[i]).distance)
    decreases n
{ if n > 0 { lemma_links_nan(p, n - 1);
    assert forall|i: int| 0 <= i < links_upto(p, n).len() implies !is_nan((#[trigger] links_upto(p, n)[i]).distance) by {
        let a = links_upto(p, n - 1).len();
        if i >= a { assert(links(p.nb(n - 1))[i - a] == link(p.nb(n - 1)[i - a])); }
    } } }
}
}
pub mod code {
use vstd::prelude::*;
use std::sync::Arc;
use core::cmp::Ordering;
use super::fl::*;
use super::sp::*;
use super::lem::*;
verus! {
broadcast use {super::fl::ax_f32_cmp, super::fl::ax_f32_eq, super::fl::ax_f32_obeys, super::fl::ax_f32_zero};
//@include fns_point.vrs
//@include fns_iter.vrs
impl Neighbour {
// the order of flattened neighbours is the order of their distances
//@fn src/flatten.rs Ord for Neighbour::cmp
//@ret r
//@sub? self . distance . is_nan ( ) => f32_is_nan(self.distance)
//@sub? other . distance . is_nan ( ) => f32_is_nan(other.distance)
//@sub? self . distance . partial_cmp ( & other . distance ) => f32_partial_cmp(&self.distance, &other.distance)
//@spec
    requires !is_nan(self.distance), !is_nan(other.distance)
    ensures Some(r) == fcmp(self.distance, other.distance)
//@endfn
//@fn src/flatten.rs PartialOrd for Neighbour::partial_cmp
//@ret r
//@sub? self . distance . partial_cmp ( & other . distance ) => f32_partial_cmp(&self.distance, &other.distance)
//@spec
    ensures r == fcmp(self.distance, other.distance)
//@endfn
}
impl<'b, T: Clone + Send + Sync> Point<'b, T> {
//@fn src/hnsw.rs Point::get_neighborhood_id
//@ret r
//@spec
    ensures r@.len() == self.nlayers(), forall|l: int| 0 <= l < r@.len() ==> (#[trigger] r@[l])@ =~= links(self.nb(l))
//@loop 1 it
    invariant nb_layer == self.nlayers(), it.seq().len() == nb_layer, neighborhood@.len() == it.index(), ref_neighbours@ == (*self.neighbours)@@,
        forall|l: int| 0 <= l < neighborhood@.len() ==> (#[trigger] neighborhood@[l])@ =~= links(self.nb(l))
//@loop 2 it2
    invariant 0 <= i < nb_layer, nb_layer == self.nlayers(), ref_neighbours@ == (*self.neighbours)@@, it2.seq().len() == self.nb(i as int).len(), forall|k: int| 0 <= k < it2.seq().len() ==> *(#[trigger] it2.seq()[k]) == self.nb(i as int)[k],
        neighbours@.len() == it2.index(), forall|k: int| 0 <= k < neighbours@.len() ==> #[trigger] neighbours@[k] == link(self.nb(i as int)[k])
//@endfn
}
impl FlatPoint {
//@fn src/flatten.rs FlatPoint::get_neighbours
//@ret r
//@spec
    ensures *r == self.neighbours
//@endfn
//@fn src/flatten.rs FlatPoint::get_id
//@ret r
//@spec
    ensures r == self.origin_id
//@endfn
//@fn src/flatten.rs FlatPoint::get_p_id
//@ret r
//@spec
    ensures r == self.p_id
//@endfn
}
//@fn src/flatten.rs flatten_point
//@ret r
//@spec
    requires no_nan(*point)
    ensures flat_of(r, *point)
//@loop 1 it
    invariant it.seq().len() == point.nlayers(), forall|l: int| 0 <= l < it.seq().len() ==> (#[trigger] it.seq()[l])@ =~= links(point.nb(l)),
        flat_neighbours@ =~= links_upto(*point, it.index() as int)
//@loop 2 it2
    invariant 0 <= it.index() < point.nlayers(), it2.seq() =~= links(point.nb(it.index() as int)), flat_neighbours@ =~= links_upto(*point, it.index() as int) + it2.seq().take(it2.index() as int)
//@at after-loop 1
    proof { lemma_links_nan(*point, point.nlayers()); }
//@endfn
impl<'b, T: Clone + Send + Sync, D: Distance<T> + Send + Sync> Hnsw<'b, T, D> {
//@fn src/hnsw.rs Hnsw::get_point_indexation
//@ret r
//@spec
    ensures *r == self.layer_indexed_points
//@endfn
}
impl FlatNeighborhood {
//@fn src/flatten.rs FlatNeighborhood::get_neighbours
//@ret r
//@spec
    ensures r.is_some() == self.hash_t@.dom().contains(p_id), r.is_some() ==> r->0@ == self.hash_t@[p_id].neighbours@
//@closure 1 |$1: &FlatPoint| -> (o: Vec<Neighbour>)
    ensures o@ == $1.neighbours@
//@endfn
}
pub trait FromHnsw<'a, 'b, T: Clone + Send + Sync, D: Distance<T> + Send + Sync>: Sized {
    spec fn view_of(self, s: Seq<Arc<Point<'b, T>>>) -> bool;
    fn from(hnsw: &'a Hnsw<'b, T, D>) -> (r: Self)
        requires hnsw.layer_indexed_points.top_ok(), forall|i: int| 0 <= i < all_points(hnsw.layer_indexed_points.layers()).len() ==> no_nan(*#[trigger] all_points(hnsw.layer_indexed_points.layers())[i])
        ensures r.view_of(all_points(hnsw.layer_indexed_points.layers()));
}
impl<'a, 'b, T: Clone + Send + Sync, D: Distance<T> + Send + Sync> FromHnsw<'a, 'b, T, D> for FlatNeighborhood {
    open spec fn view_of(self, s: Seq<Arc<Point<'b, T>>>) -> bool { flat_view(self.hash_t@, s) }
//@fn src/flatten.rs From for FlatNeighborhood::from [vis=none]
//@attr #[verifier::exec_allows_no_decreases_clause]
//@sub? hnsw : & Hnsw < T , D > => hnsw: &'a Hnsw<'b, T, D>
//@fornext 1
//@sub? let mut hash_t = HashMap :: new ( ) ; => let mut hash_t: HashMap<DataId, FlatPoint> = HashMap::new();
//@at before-loop 1
    let ghost mut gdone: Seq<Arc<Point<'b, T>>> = Seq::empty();
//@at loop-start 1
    let ghost gm = hash_t@;
    proof { assert(all_points(hnsw.layer_indexed_points.layers())[gdone.len() as int] == point); }
//@at loop-end 1
    proof {
        let gf = hash_t@[point.origin_id];
        lemma_view_push(gm, gdone, point, gf);
        gdone = gdone.push(point);
    }
//@loop 1
    invariant
        vi__1.wf(), gdone + vi__1.rem() =~= all_points(hnsw.layer_indexed_points.layers()), flat_view(hash_t@, gdone),
        forall|i: int| 0 <= i < all_points(hnsw.layer_indexed_points.layers()).len() ==> no_nan(*#[trigger] all_points(hnsw.layer_indexed_points.layers())[i])
    ensures flat_view(hash_t@, all_points(hnsw.layer_indexed_points.layers()))
//@endfn
}
}
}
