pub broadcast proof fn lemma_push_has<'b, T: Clone + Send + Sync>(s: Seq<Arc<PointWithOrder<'b, T>>>, e: Arc<PointWithOrder<'b, T>>, p: Point<'b, T>)
    ensures #[trigger] heap_has(s.push(e), p) == (heap_has(s, p) || *e.point_ref == p)
{
    if heap_has(s, p) { let i = choose|i: int| 0 <= i < s.len() && *(#[trigger] s[i]).point_ref == p; assert(s.push(e)[i] == s[i]); }
    if at(e, p) { assert(s.push(e)[s.len() as int] == e); }
}
pub broadcast proof fn lemma_remove_has<'b, T: Clone + Send + Sync>(s: Seq<Arc<PointWithOrder<'b, T>>>, i: int, p: Point<'b, T>)
    requires 0 <= i < s.len()
    ensures (#[trigger] heap_has(s.remove(i), p) || *s[i].point_ref == p) == heap_has(s, p)
{
    if heap_has(s, p) && !at(s[i], p) {
        let k = choose|k: int| 0 <= k < s.len() && *(#[trigger] s[k]).point_ref == p;
        if k < i { assert(s.remove(i)[k] == s[k]); } else { assert(s.remove(i)[k - 1] == s[k]); }
    }
    if heap_has(s.remove(i), p) {
        let k = choose|k: int| 0 <= k < s.remove(i).len() && *(#[trigger] s.remove(i)[k]).point_ref == p;
        if k < i { assert(s.remove(i)[k] == s[k]); } else { assert(s.remove(i)[k] == s[k + 1]); }
    }
    if at(s[i], p) { assert(heap_has(s, p)); }
}
pub broadcast proof fn lemma_perm_has<'b, T: Clone + Send + Sync>(a: Seq<Arc<PointWithOrder<'b, T>>>, b: Seq<Arc<PointWithOrder<'b, T>>>, p: Point<'b, T>)
    requires #[trigger] perm_of(a, b)
    ensures #[trigger] heap_has(b, p) == heap_has(a, p)
{
    let (x, y) = choose|x: Seq<int>, y: Seq<int>| #[trigger] is_perm(a.len() as int, x, y)
      && (forall|i: int| #![trigger a[i]] 0 <= i < a.len() ==> a[i] == b[x[i]])
      && (forall|i: int| #![trigger b[i]] 0 <= i < a.len() ==> b[i] == a[y[i]]);
    if heap_has(b, p) { let i = choose|i: int| 0 <= i < b.len() && *(#[trigger] b[i]).point_ref == p; assert(*a[y[i]].point_ref == p); }
    if heap_has(a, p) { let i = choose|i: int| 0 <= i < a.len() && *(#[trigger] a[i]).point_ref == p; assert(*b[x[i]].point_ref == p); }
}
pub broadcast proof fn lemma_perm_dominated<'b, T: Clone + Send + Sync, D: Distance<T> + Send + Sync>(h: &Hnsw<'b, T, D>, q: Seq<T>, a: Seq<Arc<PointWithOrder<'b, T>>>, b: Seq<Arc<PointWithOrder<'b, T>>>, n: int, p: Point<'b, T>)
    requires #[trigger] perm_of(a, b), dominated(h, q, b, n, p)
    ensures #[trigger] dominated(h, q, a, n, p)
{
    lemma_perm_has(a, b, p);
    if a.len() >= n && forall|i: int| 0 <= i < b.len() ==> key((#[trigger] b[i]).dist_to_ref) <= key(h.dist(q, p)) {
        let (x, y) = choose|x: Seq<int>, y: Seq<int>| #[trigger] is_perm(a.len() as int, x, y)
          && (forall|i: int| #![trigger a[i]] 0 <= i < a.len() ==> a[i] == b[x[i]])
          && (forall|i: int| #![trigger b[i]] 0 <= i < a.len() ==> b[i] == a[y[i]]);
        assert forall|i: int| 0 <= i < a.len() implies key((#[trigger] a[i]).dist_to_ref) <= key(h.dist(q, p)) by { assert(a[i] == b[x[i]]); }
    }
}
//@if P19
pub open spec fn code(p: PointId) -> int { p.0 as int * 0x1_0000_0000 + p.1 as int + 0x8000_0000 }
pub broadcast proof fn lemma_room(s: Set<PointId>)
    ensures #[trigger] room(s) >= 0
{
    let f = |p: PointId| code(p);
    let m = s.map(f);
    let r = vstd::set_lib::set_int_range(0, 0x100_0000_0000);
    vstd::set_lib::lemma_int_range(0, 0x100_0000_0000);
    assert(vstd::relations::injective(f));
    vstd::set_lib::lemma_map_size(s, m, f);
    assert(m.subset_of(r));
    vstd::set_lib::lemma_len_subset(m, r);
}
//@endif
