//@include spec_index.vrs
pub open spec fn f_ok(filter: Option<&dyn FilterT>, id: usize) -> bool { match filter { None => true, Some(f) => f.allows(id) } }

pub open spec fn at<'b, T: Clone + Send + Sync>(e: Arc<PointWithOrder<'b, T>>, p: Point<'b, T>) -> bool { *e.point_ref == p }
pub open spec fn heap_has<'b, T: Clone + Send + Sync>(s: Seq<Arc<PointWithOrder<'b, T>>>, p: Point<'b, T>) -> bool {
    exists|i: int| 0 <= i < s.len() && *(#[trigger] s[i]).point_ref == p
}
// every entry of a heap is a distinct stored point with its true distance to q (sgn 1) or the negated one (sgn -1)
pub open spec fn answers<'b, T: Clone + Send + Sync, D: Distance<T> + Send + Sync>(h: &Hnsw<'b, T, D>, q: Seq<T>, s: Seq<Arc<PointWithOrder<'b, T>>>, sgn: int) -> bool {
    &&& forall|i: int| 0 <= i < s.len() ==> h.stored(*(#[trigger] s[i]).point_ref) && key(s[i].dist_to_ref) == sgn * key(h.dist(q, *s[i].point_ref))
            && !is_nan(s[i].dist_to_ref) && 0 <= sgn * key(s[i].dist_to_ref) && (sgn == 1 ==> s[i].dist_to_ref == h.dist(q, *s[i].point_ref))
    &&& forall|i: int, j: int| 0 <= i < j < s.len() ==> (#[trigger] s[i]).point_ref.p_id != (#[trigger] s[j]).point_ref.p_id
}
// p is in s, or s is full (n entries) and p is at least as far as everything in s
pub open spec fn dominated<'b, T: Clone + Send + Sync, D: Distance<T> + Send + Sync>(h: &Hnsw<'b, T, D>, q: Seq<T>, s: Seq<Arc<PointWithOrder<'b, T>>>, n: int, p: Point<'b, T>) -> bool {
    heap_has(s, p) || (s.len() >= n && forall|i: int| 0 <= i < s.len() ==> key((#[trigger] s[i]).dist_to_ref) <= key(h.dist(q, p)))
}
// the first `upto` links of p at layer l have been visited
pub open spec fn expanded<'b, T: Clone + Send + Sync>(v: Map<PointId, Arc<Point<'b, T>>>, p: Point<'b, T>, l: int, upto: int) -> bool {
    forall|k: int| 0 <= k < upto ==> v.dom().contains((#[trigger] p.nb(l)[k]).point_ref.p_id)
}
pub open spec fn in_dom<'b, T: Clone + Send + Sync>(v: Map<PointId, Arc<Point<'b, T>>>, s: Seq<Arc<PointWithOrder<'b, T>>>) -> bool {
    forall|i: int| 0 <= i < s.len() ==> v.dom().contains((#[trigger] s[i]).point_ref.p_id)
}
// v is a set of stored points closed under links at layer l
pub open spec fn closed<'b, T: Clone + Send + Sync, D: Distance<T> + Send + Sync>(h: &Hnsw<'b, T, D>, v: Map<PointId, Arc<Point<'b, T>>>, l: int) -> bool {
    &&& forall|p: PointId| #[trigger] v.dom().contains(p) ==> h.stored(*v[p]) && v[p].p_id == p
    &&& forall|p: PointId| #![trigger v[p]] v.dom().contains(p) ==> expanded(v, *v[p], l, v[p].nb(l).len() as int)
}
// every allowed point of v is in s
pub open spec fn covers<'b, T: Clone + Send + Sync>(v: Map<PointId, Arc<Point<'b, T>>>, s: Seq<Arc<PointWithOrder<'b, T>>>, filter: Option<&dyn FilterT>) -> bool {
    forall|p: PointId| #![trigger v[p]] v.dom().contains(p) && f_ok(filter, v[p].origin_id) ==> heap_has(s, *v[p])
}
// invariant of the layer search: v visited, cand candidates, ret kept results; c: the candidate being expanded, up to its first `upto` links
pub open spec fn sl_inv<'b, T: Clone + Send + Sync, D: Distance<T> + Send + Sync>(h: &Hnsw<'b, T, D>, q: Seq<T>, entry: Point<'b, T>, ef: int, layer: int, filter: Option<&dyn FilterT>,
    v: Map<PointId, Arc<Point<'b, T>>>, cand: Seq<Arc<PointWithOrder<'b, T>>>, ret: Seq<Arc<PointWithOrder<'b, T>>>) -> bool
{
    &&& answers(h, q, ret, 1)
    &&& answers(h, q, cand, -1)
    &&& in_dom(v, ret) && in_dom(v, cand)
    &&& 1 <= ret.len()
    &&& (ret.len() <= ef || ret.len() == 1)
    &&& forall|p: PointId| #[trigger] v.dom().contains(p) ==> h.stored(*v[p]) && v[p].p_id == p
    &&& v.dom().contains(entry.p_id)
//@if P02,P03
    &&& ((ret.len() == 1 && *ret[0].point_ref == entry) || (forall|i: int| 0 <= i < ret.len() ==> f_ok(filter, (#[trigger] ret[i]).point_ref.origin_id)))
//@endif
//@if P03
    &&& forall|p: PointId| #![trigger v[p]] v.dom().contains(p) && f_ok(filter, v[p].origin_id) ==> dominated(h, q, ret, ef, *v[p])
//@endif
//@if P02
    &&& ef >= 2 && ret.len() < ef ==> covers(v, ret, filter)
    &&& filter.is_none() && ef >= 2 && ret.len() < ef ==> forall|i: int| 0 <= i < cand.len() ==> heap_has(ret, *(#[trigger] cand[i]).point_ref)
//@endif
}

// the lowest layer that holds a point
pub open spec fn is_base<'b, T: Clone + Send + Sync, D: Distance<T> + Send + Sync>(h: &Hnsw<'b, T, D>, l: int) -> bool {
    0 <= l < h.layers().len() && h.layers()[l]@.len() > 0 && forall|j: int| 0 <= j < l ==> (#[trigger] h.layers()[j])@.len() == 0
}
pub open spec fn answered(s: Seq<Neighbour>, id: PointId) -> bool { exists|i: int| 0 <= i < s.len() && (#[trigger] s[i]).p_id == id }
// P01: what an answer list must look like
pub open spec fn truthful<'b, T: Clone + Send + Sync, D: Distance<T> + Send + Sync>(h: &Hnsw<'b, T, D>, q: Seq<T>, s: Seq<Neighbour>) -> bool {
    &&& forall|i: int| #![trigger s[i]] 0 <= i < s.len() ==> h.valid_id(s[i].p_id) && s[i].d_id == h.named(s[i].p_id).origin_id && s[i].distance == h.dist(q, h.named(s[i].p_id))
    &&& forall|i: int, j: int| #![trigger s[i], s[j]] 0 <= i < j < s.len() ==> s[i].p_id != s[j].p_id
    &&& forall|i: int, j: int| #![trigger s[i], s[j]] 0 <= i < j < s.len() ==> key(s[i].distance) <= key(s[j].distance)
}
// P02: closed set of points reached, all allowed ones answered
pub open spec fn all_answered<'b, T: Clone + Send + Sync, D: Distance<T> + Send + Sync>(h: &Hnsw<'b, T, D>, v: Map<PointId, Arc<Point<'b, T>>>, s: Seq<Neighbour>, filter: Option<&dyn FilterT>) -> bool {
    forall|p: PointId| #[trigger] v.dom().contains(p) && f_ok(filter, v[p].origin_id) ==> answered(s, p)
}
// P03: a point is answered, or there are k answers none of which is farther
pub open spec fn not_missed<'b, T: Clone + Send + Sync, D: Distance<T> + Send + Sync>(h: &Hnsw<'b, T, D>, q: Seq<T>, s: Seq<Neighbour>, k: int, p: Point<'b, T>) -> bool {
    answered(s, p.p_id) || (s.len() >= k && forall|i: int| 0 <= i < s.len() ==> key((#[trigger] s[i]).distance) <= key(h.dist(q, p)))
}
// the contract of a search, shared by every search entry point
pub open spec fn search_post<'b, T: Clone + Send + Sync, D: Distance<T> + Send + Sync>(h: &Hnsw<'b, T, D>, q: Seq<T>, knbn: int, ef: int, filter: Option<&dyn FilterT>, r: Seq<Neighbour>) -> bool {
    &&& r.len() <= knbn
    &&& truthful(h, q, r)
    &&& h.layer_indexed_points.entry().is_none() ==> r.len() == 0
//@if P02,P03
    &&& forall|i: int| 0 <= i < r.len() ==> f_ok(filter, (#[trigger] r[i]).d_id)
//@endif
//@if P02
    &&& h.layer_indexed_points.entry().is_some() && (ef >= 2 || knbn >= 2) && r.len() < knbn && (ef < knbn || r.len() < ef)
        ==> exists|v: Map<PointId, Arc<Point<'b, T>>>, l: int, p0: PointId| is_base(h, l) && #[trigger] closed(h, v, l) && #[trigger] v.dom().contains(p0) && all_answered(h, v, r, filter)
//@endif
//@if P03
    &&& forall|i: int, l: int, k: int| #![trigger r[i], is_base(h, l), h.named(r[i].p_id).nb(l)[k]]
        0 <= i < r.len() && is_base(h, l) && 0 <= k < h.named(r[i].p_id).nb(l).len() && f_ok(filter, h.named(r[i].p_id).nb(l)[k].point_ref.origin_id)
        ==> not_missed(h, q, r, knbn, *h.named(r[i].p_id).nb(l)[k].point_ref)
//@endif
}
//@if P19
// how many ids are not yet in s: what bounds the number of steps of a search
pub open spec fn room(s: Set<PointId>) -> int { 0x100_0000_0000 - s.len() }
//@endif
