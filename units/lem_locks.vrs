// Why this discipline rules out deadlocks. In a deadlock each of some threads waits for a lock, at place w(t), that one of them, by(t),
// holds. By the contract of vtake all that by(t) holds comes before what it waits for itself: w(t) < w(by(t)). This cannot be.
pub proof fn lemma_someone_goes_on(n: nat, w: spec_fn(int) -> int, by: spec_fn(int) -> int)
    requires n > 0, forall|t: int| 0 <= t < n ==> 0 <= #[trigger] by(t) < n
    ensures exists|t: int| 0 <= t < n && !(w(t) < #[trigger] w(by(t)))
{
    let m = lemma_greatest(n, w);
    assert(0 <= by(m) < n);
    assert(!(w(m) < w(by(m))));
}
pub proof fn lemma_greatest(n: nat, w: spec_fn(int) -> int) -> (m: int)
    requires n > 0
    ensures 0 <= m < n, forall|t: int| 0 <= t < n ==> #[trigger] w(t) <= w(m)
    decreases n
{
    if n == 1 { 0 } else {
        let k = lemma_greatest((n - 1) as nat, w);
        if w(k) < w(n - 1) { n - 1 } else { k }
    }
}
