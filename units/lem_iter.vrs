// nothing is left when all layers from l on are empty
pub proof fn lemma_rem_empty<'b, T: Clone + Send + Sync>(s: Seq<Layer<'b, T>>, l: int)
    requires 0 <= l, forall|j: int| l <= j < s.len() ==> (#[trigger] s[j])@.len() == 0
    ensures rem_from(s, l, 0) =~= Seq::empty()
    decreases s.len() - l
{ if l < s.len() { lemma_rem_empty(s, l + 1); } }
// empty layers are skipped
pub proof fn lemma_rem_skip<'b, T: Clone + Send + Sync>(s: Seq<Layer<'b, T>>, l: int, slot: int, m: int)
    requires 0 <= l < m <= s.len(), s[l]@.len() <= slot || slot < 0, forall|j: int| l < j < m ==> (#[trigger] s[j])@.len() == 0
    ensures rem_from(s, l, slot) =~= rem_from(s, m, 0)
    decreases m - l
{ if l + 1 < m { lemma_rem_skip(s, l + 1, 0, m); } }
// the first one at (l, slot)
pub proof fn lemma_rem_step<'b, T: Clone + Send + Sync>(s: Seq<Layer<'b, T>>, l: int, slot: int)
    requires 0 <= l < s.len(), 0 <= slot < s[l]@.len()
    ensures rem_from(s, l, slot).len() > 0, rem_from(s, l, slot)[0] == s[l]@[slot], rem_from(s, l, slot + 1) =~= rem_from(s, l, slot).drop_first()
{}
// every stored point is in the list, at one place only
pub open spec fn before<'b, T: Clone + Send + Sync>(s: Seq<Layer<'b, T>>, l: int) -> int
    decreases l
{ if l <= 0 { 0 } else { before(s, l - 1) + s[l - 1]@.len() } }
pub proof fn lemma_all_split<'b, T: Clone + Send + Sync>(s: Seq<Layer<'b, T>>, l: int)
    requires 0 <= l <= s.len()
    ensures all_points(s).len() >= before(s, l) >= 0, all_points(s).subrange(before(s, l), all_points(s).len() as int) =~= rem_from(s, l, 0)
    decreases l
{
    if l > 0 {
        lemma_all_split(s, l - 1);
        let a = all_points(s);
        assert(rem_from(s, l - 1, 0) == s[l - 1]@.subrange(0, s[l - 1]@.len() as int) + rem_from(s, l, 0));
        let r = a.subrange(before(s, l - 1), a.len() as int);
        assert(r.subrange(s[l - 1]@.len() as int, r.len() as int) =~= rem_from(s, l, 0));
        assert(a.subrange(before(s, l), a.len() as int) =~= r.subrange(s[l - 1]@.len() as int, r.len() as int));
    }
}
pub proof fn lemma_all_at<'b, T: Clone + Send + Sync>(s: Seq<Layer<'b, T>>, l: int, k: int)
    requires 0 <= l < s.len(), 0 <= k < s[l]@.len()
    ensures 0 <= before(s, l) + k < all_points(s).len(), all_points(s)[before(s, l) + k] == s[l]@[k]
{
    lemma_all_split(s, l);
    lemma_all_split(s, l + 1);
    let a = all_points(s);
    let r = a.subrange(before(s, l), a.len() as int);
    assert(r == rem_from(s, l, 0));
    assert(r[k] == s[l]@[k]);
}
// P08: the position in the iteration is injective on (layer, rank) and onto
pub proof fn lemma_before_mono<'b, T: Clone + Send + Sync>(s: Seq<Layer<'b, T>>, l: int, m: int)
    requires 0 <= l < m <= s.len()
    ensures before(s, l) + s[l]@.len() <= before(s, m)
    decreases m - l
{ if l + 1 < m { lemma_before_mono(s, l + 1, m); } }
pub proof fn lemma_all_covered<'b, T: Clone + Send + Sync>(s: Seq<Layer<'b, T>>, n: int) -> (r: (int, int))
    requires 0 <= n < all_points(s).len()
    ensures 0 <= r.0 < s.len(), 0 <= r.1 < s[r.0]@.len(), n == before(s, r.0) + r.1
{
    lemma_all_split(s, s.len() as int);
    assert(before(s, s.len() as int) == all_points(s).len());
    lemma_find(s, n, s.len() as int)
}
proof fn lemma_find<'b, T: Clone + Send + Sync>(s: Seq<Layer<'b, T>>, n: int, m: int) -> (r: (int, int))
    requires 0 <= m <= s.len(), 0 <= n < before(s, m)
    ensures 0 <= r.0 < m, 0 <= r.1 < s[r.0]@.len(), n == before(s, r.0) + r.1
    decreases m
{ if n < before(s, m - 1) { lemma_find(s, n, m - 1) } else { (m - 1, n - before(s, m - 1)) } }
