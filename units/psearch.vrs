#![allow(unused)]
use vstd::prelude::*;
//@include pre_float.vrs
pub mod sp {
use vstd::prelude::*;
use std::sync::Arc;
use core::cmp::Ordering;
use super::fl::*;
verus! {
broadcast use {super::fl::ax_f32_cmp, super::fl::ax_f32_eq, super::fl::ax_f32_obeys, super::fl::ax_f32_zero};
//@include pre_std.vrs
//@include pre_lock_frozen.vrs
//@include types.vrs
//@include pre_par.vrs
//@include pre_chan.vrs
// what a single search of this index answers: it reads the index and nothing else   [assumption: search]
pub uninterp spec fn single<'b, T: Clone + Send + Sync, D: Distance<T> + Send + Sync>(h: &Hnsw<'b, T, D>, q: Seq<T>, knbn: usize, ef: usize) -> Seq<Neighbour>;
impl<'b, T: Clone + Send + Sync, D: Distance<T> + Send + Sync> Hnsw<'b, T, D> {
    #[verifier::external_body]
    pub fn search(&self, data: &[T], knbn: usize, ef_arg: usize) -> (r: Vec<Neighbour>) ensures r@ == single(self, data@, knbn, ef_arg) { unimplemented!() }
}
pub open spec fn has_rank<V>(s: Seq<(usize, V)>, k: usize) -> bool { exists|i: int| 0 <= i < s.len() && (#[trigger] s[i]).0 == k }
pub open spec fn all_ranks<V>(s: Seq<(usize, V)>, n: int) -> bool { forall|k: usize| k < n ==> #[trigger] has_rank(s, k) }
pub proof fn lemma_ranks<V>(s: Seq<(usize, V)>, o: Seq<usize>, n: int)
    requires vperm(o, n), s.len() == n, forall|i: int| 0 <= i < n ==> (#[trigger] s[i]).0 == o[i]
    ensures all_ranks(s, n)
{
    assert forall|k: usize| k < n implies #[trigger] has_rank(s, k) by {
        assert(o.contains((k as int) as usize));
        let i = choose|i: int| 0 <= i < o.len() && o[i] == k;
        assert(s[i].0 == k);
    }
}
pub broadcast proof fn lemma_ranks_reordered<V>(a: Seq<(usize, V)>, b: Seq<(usize, V)>, o: Seq<usize>, k: usize)
    requires #[trigger] reordered(a, b, o), has_rank(b, k)
    ensures #[trigger] has_rank(a, k)
{
    let i = choose|i: int| 0 <= i < b.len() && (#[trigger] b[i]).0 == k;
    assert(o.contains(i as usize)) by { assert(0 <= i < b.len()); };
    let j = choose|j: int| 0 <= j < o.len() && o[j] == i as usize;
    assert(a[j] == b[o[j] as int]);
    assert(a[j].0 == k);
}
// message m answers the query of its rank
pub open spec fn answers_one<'b, T: Clone + Send + Sync, D: Distance<T> + Send + Sync>(h: &Hnsw<'b, T, D>, datas: Seq<Vec<T>>, knbn: usize, ef: usize, m: (usize, Vec<Neighbour>)) -> bool {
    m.0 < datas.len() && m.1@ == single(h, datas[m.0 as int]@, knbn, ef)
}
}
}
pub mod code {
use vstd::prelude::*;
use std::sync::Arc;
use core::cmp::Ordering;
use super::fl::*;
use super::sp::*;
verus! {
broadcast use {super::fl::ax_f32_cmp, super::fl::ax_f32_eq, super::fl::ax_f32_obeys, super::fl::ax_f32_zero, super::sp::lemma_ranks_reordered};
impl<'b, T: Clone + Send + Sync, D: Distance<T> + Send + Sync> Hnsw<'b, T, D> {
//@fn src/hnsw.rs Hnsw::search_with_id
//@ret ret
//@spec
    ensures ret.0 == request.0, ret.1@ == single(self, request.1@, knbn, ef)
//@endfn
//@fn src/hnsw.rs Hnsw::parallel_search
//@ret ret
//@spec
    ensures ret@.len() == datas@.len(), forall|i: int| 0 <= i < ret@.len() ==> (#[trigger] ret@[i])@ == single(self, datas@[i]@, knbn, ef)
//@par 1
    invariant
        vperm(vord__1@, datas@.len() as int), vpar__1@.len() == datas@.len(), forall|i: int| 0 <= i < datas@.len() ==> (#[trigger] vpar__1@[i]).0 == i && *vpar__1@[i].1 == datas@[i],
        vst__1.end() == receiver.end(), vst__1.sent().len() == k__1,
        forall|i: int| 0 <= i < k__1 ==> answers_one(self, datas@, knbn, ef, #[trigger] vst__1.sent()[i]) && vst__1.sent()[i].0 == vord__1@[i],
//@at par-after 1
    proof { lemma_ranks(vst__1.sent(), vord__1@, datas@.len() as int); }
//@at before-loop 1
    proof { assert forall|k: usize| k < datas@.len() implies #[trigger] has_rank(req_res@, k) by { assert(has_rank(receiver.end(), k)); } }
//@loop 1 it1
    invariant
        forall|j: int| 0 <= j < req_res@.len() ==> answers_one(self, datas@, knbn, ef, #[trigger] req_res@[j]),
        forall|k: usize| #[trigger] req_hash@.dom().contains(k) ==> req_hash@[k] < req_res@.len() && req_res@[req_hash@[k] as int].0 == k,
        forall|j: int| 0 <= j < i ==> req_hash@.dom().contains((#[trigger] req_res@[j]).0),
//@at after-loop 1
    proof { assert forall|k: usize| k < datas@.len() implies #[trigger] req_hash@.dom().contains(k) by { assert(has_rank(req_res@, k)); } }
//@loop 2 it2
    invariant
        forall|j: int| 0 <= j < req_res@.len() ==> answers_one(self, datas@, knbn, ef, #[trigger] req_res@[j]),
        forall|k: usize| #[trigger] req_hash@.dom().contains(k) ==> req_hash@[k] < req_res@.len() && req_res@[req_hash@[k] as int].0 == k,
        forall|k: usize| k < datas@.len() ==> #[trigger] req_hash@.dom().contains(k),
        answers@.len() == i, forall|j: int| 0 <= j < i ==> (#[trigger] answers@[j])@ == single(self, datas@[j]@, knbn, ef),
//@endfn
}
}
}
