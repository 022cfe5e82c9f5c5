pub broadcast proof fn lemma_remove_ms<E>(s: Seq<E>, i: int)
    requires 0 <= i < s.len()
    ensures s.to_multiset() == (#[trigger] s.remove(i)).to_multiset().insert(s[i])
{
    broadcast use vstd::seq_lib::group_to_multiset_ensures;
    assert(s.remove(i).to_multiset() =~= s.to_multiset().remove(s[i]));
    assert(s.to_multiset().contains(s[i]));
    assert(s.to_multiset() =~= s.remove(i).to_multiset().insert(s[i]));
}
pub broadcast proof fn lemma_push_ms<E>(s: Seq<E>, e: E)
    ensures (#[trigger] s.push(e)).to_multiset() == s.to_multiset().insert(e)
{ broadcast use vstd::seq_lib::group_to_multiset_ensures; }
// one step of taking elements out of a bag
pub proof fn lemma_split_step<'b, T: Clone + Send + Sync>(t: Seq<Arc<PointWithOrder<'b, T>>>, s: Seq<Arc<PointWithOrder<'b, T>>>, r: Seq<Arc<PointWithOrder<'b, T>>>, i: int)
    requires split(t, s, r), 0 <= i < r.len()
    ensures split(t, s.push(r[i]), r.remove(i))
{
    broadcast use {lemma_remove_ms, lemma_push_ms};
    assert(s.push(r[i]).to_multiset().add(r.remove(i).to_multiset()) =~= s.to_multiset().add(r.to_multiset()));
}
pub proof fn lemma_split_start<'b, T: Clone + Send + Sync>(t: Seq<Arc<PointWithOrder<'b, T>>>)
    ensures split(t, Seq::empty(), t), split(t, t, Seq::empty())
{
    broadcast use vstd::seq_lib::group_to_multiset_ensures;
    assert(Seq::<Arc<PointWithOrder<'b, T>>>::empty().to_multiset() =~= vstd::multiset::Multiset::empty());
    assert(t.to_multiset().add(vstd::multiset::Multiset::empty()) =~= t.to_multiset());
    assert(vstd::multiset::Multiset::empty().add(t.to_multiset()) =~= t.to_multiset());
}
pub proof fn lemma_kept_step<'b, T: Clone + Send + Sync, D: Distance<T> + Send + Sync>(h: &Hnsw<'b, T, D>, c: Seq<Arc<PointWithOrder<'b, T>>>, e: Arc<PointWithOrder<'b, T>>)
    ensures
        blocked(h, kept(h, c), e) ==> kept(h, c.push(e)) == kept(h, c) && pruned(h, c.push(e)) == pruned(h, c).push(e),
        !blocked(h, kept(h, c), e) ==> kept(h, c.push(e)) == kept(h, c).push(e) && pruned(h, c.push(e)) == pruned(h, c),
{ assert(c.push(e).drop_last() =~= c); assert(c.push(e).last() == e); }
pub proof fn lemma_kept_ok<'b, T: Clone + Send + Sync, D: Distance<T> + Send + Sync>(h: &Hnsw<'b, T, D>, q: Seq<T>, c: Seq<Arc<PointWithOrder<'b, T>>>)
    requires all_ok(h, q, -1, c), distinct(c)
    ensures all_ok(h, q, -1, kept(h, c)), all_ok(h, q, -1, pruned(h, c)), distinct(kept(h, c)), distinct(pruned(h, c)), apart(kept(h, c), pruned(h, c)),
        forall|i: int| 0 <= i < kept(h, c).len() ==> has_id(c, (#[trigger] kept(h, c)[i]).point_ref.p_id),
        forall|i: int| 0 <= i < pruned(h, c).len() ==> has_id(c, (#[trigger] pruned(h, c)[i]).point_ref.p_id),
    decreases c.len()
{
    if c.len() > 0 {
        let b = c.drop_last();
        lemma_kept_ok(h, q, b);
        assert forall|id: PointId| #[trigger] has_id(b, id) implies has_id(c, id) && id != c.last().point_ref.p_id by {
            let i = choose|i: int| 0 <= i < b.len() && (#[trigger] b[i]).point_ref.p_id == id;
            assert(c[i].point_ref.p_id == id);
        }
        assert(has_id(c, c.last().point_ref.p_id)) by { assert(c[c.len() - 1].point_ref.p_id == c.last().point_ref.p_id); }
    }
}

pub broadcast proof fn lemma_extension<'b, T: Clone + Send + Sync, D: Distance<T> + Send + Sync>(h: &Hnsw<'b, T, D>, q: Seq<T>, s: Seq<Arc<PointWithOrder<'b, T>>>, m: Map<PointId, Arc<Point<'b, T>>>, n: Map<PointId, Arc<Point<'b, T>>>, ents: Seq<&(PointId, Arc<Point<'b, T>>)>,
    ext: Seq<Arc<PointWithOrder<'b, T>>>, layer: int)
    requires #[trigger] ext_step(h, q, s, m, n, ents, ext, layer), ext.len() == ents.len()
    ensures extension(h, q, s, ext, layer)
{
    assert forall|i: int| 0 <= i < ext.len() implies n.dom().contains((#[trigger] ext[i]).point_ref.p_id) && ext[i].point_ref.p_id == ents[i].0 && n[ents[i].0] == ext[i].point_ref by { assert(n.dom().contains(ents[i].0)); }
    assert forall|id: PointId| #[trigger] n.dom().contains(id) implies has_id(ext, id) by {
        let k = choose|k: int| 0 <= k < ents.len() && (#[trigger] ents[k]).0 == id;
        assert(ext[k].point_ref.p_id == id);
    }
    assert forall|id: PointId| #[trigger] m.dom().contains(id) implies has_id(s, id) by {
        let k = choose|k: int| 0 <= k < s.len() && *(#[trigger] s[k]).point_ref == *m[id];
        assert(s[k].point_ref.p_id == id);
    }
    assert forall|i: int, j: int| 0 <= i < s.len() && 0 <= j < ext.len() implies (#[trigger] s[i]).point_ref.p_id != (#[trigger] ext[j]).point_ref.p_id by { assert(m.dom().contains(s[i].point_ref.p_id)); }
}
