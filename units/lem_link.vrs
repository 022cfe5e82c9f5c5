// offering p to one list: it is in it afterwards, or the list is full of entries none of which is farther; what held of it before stays
pub proof fn lemma_back<'b, T: Clone + Send + Sync>(m: int, p: Arc<Point<'b, T>>, s: Seq<Arc<PointWithOrder<'b, T>>>, t: Seq<Arc<PointWithOrder<'b, T>>>, d: f32, d0: f32)
    requires back_step(m, p, s, t, d)
    ensures back(m, p, t, d), back(m, p, s, d0) ==> back(m, p, t, d0)
{
    if t == s && exists|k: int| 0 <= k < s.len() && (#[trigger] s[k]).point_ref.p_id == p.p_id { }
    else {
        let (e, u) = choose|e: Arc<PointWithOrder<'b, T>>, u: Seq<Arc<PointWithOrder<'b, T>>>| #[trigger] perm_of(u, s.push(e)) && e.point_ref.p_id == p.p_id && e.dist_to_ref == d
            && (forall|i: int, j: int| 0 <= i <= j < u.len() ==> key((#[trigger] u[i]).dist_to_ref) <= key((#[trigger] u[j]).dist_to_ref))
            && t == (if u.len() > bound_at(m, p.p_id.0 as int) { u.drop_last() } else { u });
        let se = s.push(e);
        let (f, g) = choose|f: Seq<int>, g: Seq<int>| #[trigger] is_perm(u.len() as int, f, g)
            && (forall|i: int| #![trigger u[i]] 0 <= i < u.len() ==> u[i] == se[f[i]])
            && (forall|i: int| #![trigger se[i]] 0 <= i < u.len() ==> se[i] == u[g[i]]);
        let n = s.len() as int;
        let c = g[n];
        assert(se[n] == e);
        assert(u[c] == e);
        if u.len() <= bound_at(m, p.p_id.0 as int) || c < n { assert(t[c] == e); }
        else {
            assert(c == n && f[c] == n);
            assert forall|k: int| 0 <= k < t.len() implies (#[trigger] t[k]) == s[f[k]] && 0 <= f[k] < n && key(t[k].dist_to_ref) <= key(d) by {
                assert(u[k] == se[f[k]]);
                assert(f[k] != n);
                assert(key(u[k].dist_to_ref) <= key(u[c].dist_to_ref));
            }
            if exists|k: int| 0 <= k < s.len() && (#[trigger] s[k]).point_ref.p_id == p.p_id {
                let k = choose|k: int| 0 <= k < s.len() && (#[trigger] s[k]).point_ref.p_id == p.p_id;
                assert(se[k] == u[g[k]]);
                assert(g[k] != n);
                assert(t[g[k]] == s[k]);
            }
        }
    }
}
pub proof fn lemma_offered<'b, T: Clone + Send + Sync>(m: int, h1: HeapView<'b, T>, h2: HeapView<'b, T>, p: Arc<Point<'b, T>>, e: Arc<PointWithOrder<'b, T>>, l: int, n: int)
    requires
        0 <= l <= p.p_id.0 < 16, chosen_okq(h1, p), okq(h1, p), 0 <= n < lists_of(h1, p)[l]@.len(), e == lists_of(h1, p)[l]@[n], e.point_ref.p_id != p.p_id,
        h2 == (HeapView { lists: h2.lists, ..h1 }), forall|i: int| i != e.point_ref.neighbours.id() ==> #[trigger] h2.lists[i] == h1.lists[i],
        back_step(m, p, lists_of(h1, e.point_ref)[p.p_id.0 as int]@, lists_of(h2, e.point_ref)[p.p_id.0 as int]@, e.dist_to_ref),
        offered_up_to(m, h1, p, l, n)
    ensures offered_up_to(m, h2, p, l, n + 1), lists_of(h2, p) == lists_of(h1, p)
{
    let q = e.point_ref;
    let lv = p.p_id.0 as int;
    assert(okq(h1, q));
    assert(h1.owner[p.neighbours.id()] == p.p_id);
    assert(lists_of(h2, p) == lists_of(h1, p));
    let (s, t) = (lists_of(h1, q)[lv]@, lists_of(h2, q)[lv]@);
    lemma_back(m, p, s, t, e.dist_to_ref, e.dist_to_ref);
    assert forall|x: Arc<PointWithOrder<'b, T>>| #[trigger] offered(m, h1, p, x) implies offered(m, h2, p, x) by {
        if x.point_ref.neighbours.id() == q.neighbours.id() { lemma_back(m, p, s, t, e.dist_to_ref, x.dist_to_ref); }
    }
    assert forall|l2: int, k: int| l + 1 <= l2 <= p.p_id.0 && 0 <= k < lists_of(h2, p)[l2]@.len() implies offered(m, h2, p, #[trigger] lists_of(h2, p)[l2]@[k]) by {
        assert(offered(m, h1, p, lists_of(h1, p)[l2]@[k]));
    }
    assert forall|k: int| 0 <= k < n + 1 && k < lists_of(h2, p)[l]@.len() implies offered(m, h2, p, #[trigger] lists_of(h2, p)[l]@[k]) by {
        if k < n { assert(offered(m, h1, p, lists_of(h1, p)[l]@[k])); }
    }
}
