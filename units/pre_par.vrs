// ---- what rayon and channels do   [assumption: rayon]
// a parallel for_each runs its closure once for every item and ends when all are done; in what order is not known
pub open spec fn vperm(o: Seq<usize>, n: int) -> bool {
    &&& o.len() == n && n <= usize::MAX
    &&& forall|i: int| 0 <= i < n ==> (#[trigger] o[i]) < n
    &&& forall|i: int, j: int| 0 <= i < n && 0 <= j < n && i != j ==> #[trigger] o[i] != #[trigger] o[j]
    &&& forall|v: int| 0 <= v < n ==> #[trigger] o.contains(v as usize)
}
#[verifier::external_body]
pub fn vpar<E>(s: &[E]) -> (r: &[E]) ensures r@ == s@ { s }
#[verifier::external_body]
pub fn vorder(n: usize) -> (r: Vec<usize>) ensures vperm(r@, n as int) { unimplemented!() }
#[verifier::external_body]
pub fn vzip_range<E>(a: usize, b: usize, s: &[E]) -> (r: Vec<(usize, &E)>)
    ensures r@.len() == (if b < a { 0 } else if b - a < s@.len() { b - a } else { s@.len() as int }), forall|i: int| 0 <= i < r@.len() ==> (#[trigger] r@[i]).0 == a + i && *r@[i].1 == s@[i]
{ unimplemented!() }
