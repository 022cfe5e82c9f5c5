// every candidate is a distinct stored point with minus its true distance to q
pub open spec fn cand_ok<'b, T: Clone + Send + Sync, D: Distance<T> + Send + Sync>(h: &Hnsw<'b, T, D>, q: Seq<T>, s: Seq<Arc<PointWithOrder<'b, T>>>) -> bool {
    &&& forall|i: int| 0 <= i < s.len() ==> one_ok(h, q, -1, #[trigger] s[i])
    &&& distinct(s)
}
pub open spec fn one_ok<'b, T: Clone + Send + Sync, D: Distance<T> + Send + Sync>(h: &Hnsw<'b, T, D>, q: Seq<T>, sgn: int, e: Arc<PointWithOrder<'b, T>>) -> bool {
    h.stored(*e.point_ref) && key(e.dist_to_ref) == sgn * key(h.dist(q, *e.point_ref)) && !is_nan(e.dist_to_ref) && key(h.dist(q, *e.point_ref)) >= 0
}
pub open spec fn all_ok<'b, T: Clone + Send + Sync, D: Distance<T> + Send + Sync>(h: &Hnsw<'b, T, D>, q: Seq<T>, sgn: int, s: Seq<Arc<PointWithOrder<'b, T>>>) -> bool {
    forall|i: int| 0 <= i < s.len() ==> one_ok(h, q, sgn, #[trigger] s[i])
}
pub open spec fn distinct<'b, T: Clone + Send + Sync>(s: Seq<Arc<PointWithOrder<'b, T>>>) -> bool {
    forall|i: int, j: int| 0 <= i < j < s.len() ==> (#[trigger] s[i]).point_ref.p_id != (#[trigger] s[j]).point_ref.p_id
}
pub open spec fn apart<'b, T: Clone + Send + Sync>(s: Seq<Arc<PointWithOrder<'b, T>>>, t: Seq<Arc<PointWithOrder<'b, T>>>) -> bool {
    forall|i: int, j: int| 0 <= i < s.len() && 0 <= j < t.len() ==> (#[trigger] s[i]).point_ref.p_id != (#[trigger] t[j]).point_ref.p_id
}
pub open spec fn has_id<'b, T: Clone + Send + Sync>(s: Seq<Arc<PointWithOrder<'b, T>>>, id: PointId) -> bool {
    exists|i: int| 0 <= i < s.len() && (#[trigger] s[i]).point_ref.p_id == id
}
// e and its copy with the other sign
pub open spec fn flipped<'b, T: Clone + Send + Sync>(e: Arc<PointWithOrder<'b, T>>, f: Arc<PointWithOrder<'b, T>>) -> bool {
    e.point_ref == f.point_ref && key(e.dist_to_ref) == -key(f.dist_to_ref) && is_nan(e.dist_to_ref) == is_nan(f.dist_to_ref)
}
pub open spec fn negated<'b, T: Clone + Send + Sync>(s: Seq<Arc<PointWithOrder<'b, T>>>, t: Seq<Arc<PointWithOrder<'b, T>>>) -> bool {
    s.len() == t.len() && forall|i: int| 0 <= i < s.len() ==> flipped(#[trigger] s[i], t[i])
}
pub open spec fn same_entry<'b, T: Clone + Send + Sync>(e: Arc<PointWithOrder<'b, T>>, f: Arc<PointWithOrder<'b, T>>) -> bool {
    e.point_ref == f.point_ref && e.dist_to_ref == f.dist_to_ref
}
// by increasing distance (kept with negative sign)
pub open spec fn nearest_first<'b, T: Clone + Send + Sync>(s: Seq<Arc<PointWithOrder<'b, T>>>) -> bool {
    forall|i: int, j: int| 0 <= i <= j < s.len() ==> key((#[trigger] s[i]).dist_to_ref) >= key((#[trigger] s[j]).dist_to_ref)
}
// everything in t is at least as far as everything in s
pub open spec fn not_nearer<'b, T: Clone + Send + Sync>(s: Seq<Arc<PointWithOrder<'b, T>>>, t: Seq<Arc<PointWithOrder<'b, T>>>) -> bool {
    forall|i: int, j: int| 0 <= i < s.len() && 0 <= j < t.len() ==> key((#[trigger] s[i]).dist_to_ref) >= key((#[trigger] t[j]).dist_to_ref)
}
// The heuristic: c, taken in order, is kept when no candidate kept before is at least as near to it as the new point is
pub open spec fn blocked<'b, T: Clone + Send + Sync, D: Distance<T> + Send + Sync>(h: &Hnsw<'b, T, D>, kept: Seq<Arc<PointWithOrder<'b, T>>>, e: Arc<PointWithOrder<'b, T>>) -> bool {
    exists|i: int| 0 <= i < kept.len() && key(h.dist(e.point_ref.data@, *(#[trigger] kept[i]).point_ref)) <= -key(e.dist_to_ref)
}
pub open spec fn kept<'b, T: Clone + Send + Sync, D: Distance<T> + Send + Sync>(h: &Hnsw<'b, T, D>, c: Seq<Arc<PointWithOrder<'b, T>>>) -> Seq<Arc<PointWithOrder<'b, T>>>
    decreases c.len()
{
    if c.len() == 0 { Seq::empty() } else {
        let k = kept(h, c.drop_last());
        if blocked(h, k, c.last()) { k } else { k.push(c.last()) }
    }
}
pub open spec fn pruned<'b, T: Clone + Send + Sync, D: Distance<T> + Send + Sync>(h: &Hnsw<'b, T, D>, c: Seq<Arc<PointWithOrder<'b, T>>>) -> Seq<Arc<PointWithOrder<'b, T>>>
    decreases c.len()
{
    if c.len() == 0 { Seq::empty() } else {
        let d = pruned(h, c.drop_last());
        if blocked(h, kept(h, c.drop_last()), c.last()) { d.push(c.last()) } else { d }
    }
}
// ext: the links at the layer of the candidates, those not candidates themselves
pub open spec fn extension<'b, T: Clone + Send + Sync, D: Distance<T> + Send + Sync>(h: &Hnsw<'b, T, D>, q: Seq<T>, s: Seq<Arc<PointWithOrder<'b, T>>>, ext: Seq<Arc<PointWithOrder<'b, T>>>, layer: int) -> bool {
    &&& all_ok(h, q, -1, ext) && distinct(ext) && apart(s, ext)
    &&& forall|k: int| 0 <= k < ext.len() ==> linked_from(s, *(#[trigger] ext[k]).point_ref, layer)
    &&& forall|i: int, m: int| 0 <= i < s.len() && 0 <= m < s[i].point_ref.nb(layer).len() ==>
            has_id(s, (#[trigger] s[i].point_ref.nb(layer)[m]).point_ref.p_id) || has_id(ext, s[i].point_ref.nb(layer)[m].point_ref.p_id)
}
pub open spec fn linked_from<'b, T: Clone + Send + Sync>(s: Seq<Arc<PointWithOrder<'b, T>>>, p: Point<'b, T>, layer: int) -> bool {
    exists|i: int, m: int| 0 <= i < s.len() && 0 <= m < s[i].point_ref.nb(layer).len() && *(#[trigger] s[i].point_ref.nb(layer)[m]).point_ref == p
}
// t is s + rest, in another order
pub open spec fn split<'b, T: Clone + Send + Sync>(t: Seq<Arc<PointWithOrder<'b, T>>>, s: Seq<Arc<PointWithOrder<'b, T>>>, rest: Seq<Arc<PointWithOrder<'b, T>>>) -> bool {
    t.to_multiset() == s.to_multiset().add(rest.to_multiset())
}
pub open spec fn selection<'b, T: Clone + Send + Sync, D: Distance<T> + Send + Sync>(h: &Hnsw<'b, T, D>, q: Seq<T>, cand: Seq<Arc<PointWithOrder<'b, T>>>, asked: int, extend: bool, layer: int, keep_pruned: bool, r: Seq<Arc<PointWithOrder<'b, T>>>,
    ext: Seq<Arc<PointWithOrder<'b, T>>>, c: Seq<Arc<PointWithOrder<'b, T>>>, rest: Seq<Arc<PointWithOrder<'b, T>>>, dc: Seq<Arc<PointWithOrder<'b, T>>>, drest: Seq<Arc<PointWithOrder<'b, T>>>) -> bool
{
    if cand.len() <= asked && !extend {
        // few candidates: all of them
        split(cand, c, Seq::empty()) && negated(r, c)
    } else {
        // c: the candidates examined, nearest first, all that are left are not nearer
        &&& if extend && cand.len() <= asked { extension(h, q, cand, ext, layer) } else { ext.len() == 0 }
        &&& split(cand + ext, c, rest) && nearest_first(c) && not_nearer(c, rest)
        &&& kept(h, c).len() <= asked && (rest.len() == 0 || kept(h, c).len() == asked)
        // the pruned ones, nearest first, as far as places are left
        &&& if keep_pruned {
                split(pruned(h, c), dc, drest) && nearest_first(dc) && not_nearer(dc, drest) && kept(h, c).len() + dc.len() <= asked
                    && (drest.len() == 0 || kept(h, c).len() + dc.len() == asked)
            } else { dc.len() == 0 }
        &&& negated(r, kept(h, c) + dc)
    }
}
pub open spec fn chosen_ok<'b, T: Clone + Send + Sync, D: Distance<T> + Send + Sync>(h: &Hnsw<'b, T, D>, q: Seq<T>, s: Seq<Arc<PointWithOrder<'b, T>>>) -> bool {
    all_ok(h, q, 1, s) && distinct(s)
}

pub open spec fn heap_has<'b, T: Clone + Send + Sync>(s: Seq<Arc<PointWithOrder<'b, T>>>, p: Point<'b, T>) -> bool {
    exists|i: int| 0 <= i < s.len() && *(#[trigger] s[i]).point_ref == p
}
// the map holds exactly the points of the bag s
pub open spec fn set_of<'b, T: Clone + Send + Sync>(m: Map<PointId, Arc<Point<'b, T>>>, s: Seq<Arc<PointWithOrder<'b, T>>>) -> bool {
    &&& forall|i: int| 0 <= i < s.len() ==> m.dom().contains((#[trigger] s[i]).point_ref.p_id)
    &&& forall|p: PointId| #[trigger] m.dom().contains(p) ==> heap_has(s, *m[p]) && m[p].p_id == p
}
pub open spec fn in_either<'b, T: Clone + Send + Sync>(a: Map<PointId, Arc<Point<'b, T>>>, b: Map<PointId, Arc<Point<'b, T>>>, id: PointId) -> bool {
    a.dom().contains(id) || b.dom().contains(id)
}
// n: points linked from the bag s, none of them in the map m
pub open spec fn ext_set<'b, T: Clone + Send + Sync, D: Distance<T> + Send + Sync>(h: &Hnsw<'b, T, D>, n: Map<PointId, Arc<Point<'b, T>>>, m: Map<PointId, Arc<Point<'b, T>>>, s: Seq<Arc<PointWithOrder<'b, T>>>, layer: int) -> bool {
    forall|p: PointId| #[trigger] n.dom().contains(p) ==> !m.dom().contains(p) && n[p].p_id == p && h.stored(*n[p]) && linked_from(s, *n[p], layer)
}
pub open spec fn covered<'b, T: Clone + Send + Sync>(s: Seq<Arc<PointWithOrder<'b, T>>>, m: Map<PointId, Arc<Point<'b, T>>>, n: Map<PointId, Arc<Point<'b, T>>>, layer: int) -> bool {
    forall|i: int, k: int| 0 <= i < s.len() && 0 <= k < s[i].point_ref.nb(layer).len() ==> in_either(m, n, (#[trigger] s[i].point_ref.nb(layer)[k]).point_ref.p_id)
}
pub open spec fn ext_step<'b, T: Clone + Send + Sync, D: Distance<T> + Send + Sync>(h: &Hnsw<'b, T, D>, q: Seq<T>, s: Seq<Arc<PointWithOrder<'b, T>>>, m: Map<PointId, Arc<Point<'b, T>>>, n: Map<PointId, Arc<Point<'b, T>>>, ents: Seq<&(PointId, Arc<Point<'b, T>>)>,
    ext: Seq<Arc<PointWithOrder<'b, T>>>, layer: int) -> bool {
    &&& set_of(m, s) && ext_set(h, n, m, s, layer) && map_entries(ents, n) && ext.len() <= ents.len()
    &&& forall|k: int| 0 <= k < ext.len() ==> (#[trigger] ext[k]).point_ref == ents[k].1 && one_ok(h, q, -1, ext[k])
    &&& covered(s, m, n, layer)
}
