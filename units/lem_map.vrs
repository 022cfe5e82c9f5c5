// ---- a data file has one list of records, and a map of it shows each
pub proof fn lemma_moff_ge(s: Seq<(usize, Seq<u8>)>, n: int)
    ensures moff(s, n) >= 0
    decreases n
{ if n > 0 { lemma_moff_ge(s, n - 1); } }
pub proof fn lemma_moff_le(s: Seq<(usize, Seq<u8>)>, n: int, m: int)
    requires 0 <= n <= m
    ensures 0 <= moff(s, n), moff(s, n) + 20 * (m - n) <= moff(s, m)
    decreases m
{ if n < m { lemma_moff_le(s, n, m - 1); } else { lemma_moff_ge(s, n); } }
pub proof fn lemma_moff_ext(s: Seq<(usize, Seq<u8>)>, t: Seq<(usize, Seq<u8>)>, n: int)
    requires forall|i: int| 0 <= i < n ==> s[i] == t[i]
    ensures moff(s, n) == moff(t, n), mfold(s, n) == mfold(t, n), amap(s, n) == amap(t, n)
    decreases n
{ if n > 0 { lemma_moff_ext(s, t, n - 1); } }
pub proof fn lemma_data_unique(b: Seq<u8>, p: int, i: usize, x: Seq<u8>, j: usize, y: Seq<u8>)
    requires data_at(b, p, i, x), data_at(b, p, j, y)
    ensures i == j, x == y
{
    broadcast use ax_enc_len, ax_dec, lemma_at_unique;
    assert(num_at(b, p + 4, i as u64) && num_at(b, p + 4, j as u64));
    assert(i as u64 == j as u64);
    assert(num_at(b, p + 12, x.len() as u64) && num_at(b, p + 12, y.len() as u64));
    assert(x.len() as u64 == y.len() as u64);
}
pub proof fn lemma_fills_prefix(b: Seq<u8>, s: Seq<(usize, Seq<u8>)>, t: Seq<(usize, Seq<u8>)>, n: int)
    requires fills(b, s), fills(b, t), n <= s.len(), n <= t.len()
    ensures forall|i: int| 0 <= i < n ==> s[i] == t[i]
    decreases n
{
    hide(data_at); hide(at);
    if n > 0 {
        lemma_fills_prefix(b, s, t, n - 1);
        assert(drec_at(b, s, n - 1)); assert(drec_at(b, t, n - 1));
        lemma_moff_ext(s, t, n - 1);
        lemma_data_unique(b, 12 + moff(s, n - 1), s[n - 1].0, s[n - 1].1, t[n - 1].0, t[n - 1].1);
    }
}
pub proof fn lemma_fills_unique(b: Seq<u8>, s: Seq<(usize, Seq<u8>)>, t: Seq<(usize, Seq<u8>)>)
    requires fills(b, s), fills(b, t)
    ensures s == t, map_of(b) == mfold(s, s.len() as int)
{
    hide(data_at); hide(at); hide(drecs_at);
    let n = if s.len() < t.len() { s.len() as int } else { t.len() as int };
    lemma_fills_prefix(b, s, t, n);
    lemma_moff_ext(s, t, n);
    lemma_moff_le(s, n, s.len() as int);
    lemma_moff_le(t, n, t.len() as int);
    assert(s =~= t);
    let u = choose|u: Seq<(usize, Seq<u8>)>| fills(b, u);
    assert(fills(b, u));
    if u != s { 
        let m = if s.len() < u.len() { s.len() as int } else { u.len() as int };
        lemma_fills_prefix(b, s, u, m);
        lemma_moff_ext(s, u, m);
        lemma_moff_le(s, m, s.len() as int);
        lemma_moff_le(u, m, u.len() as int);
        assert(s =~= u);
    }
}
// an id in the maps is that of some record, the same in both
pub proof fn lemma_fold_in(s: Seq<(usize, Seq<u8>)>, n: int, k: usize)
    requires 0 <= n <= s.len()
    ensures mfold(s, n).dom().contains(k) == amap(s, n).dom().contains(k),
        mfold(s, n).dom().contains(k) ==> exists|i: int| 0 <= i < n && (#[trigger] s[i]).0 == k && mfold(s, n)[k] == s[i].1 && amap(s, n)[k] == (24 + moff(s, i)) as usize,
        forall|i: int| 0 <= i < n && (#[trigger] s[i]).0 == k ==> mfold(s, n).dom().contains(k)
    decreases n
{
    if n > 0 {
        lemma_fold_in(s, n - 1, k);
        if s[n - 1].0 == k { assert(mfold(s, n)[k] == s[n - 1].1); }
        else if mfold(s, n).dom().contains(k) {
            let i = choose|i: int| 0 <= i < n - 1 && (#[trigger] s[i]).0 == k && mfold(s, n - 1)[k] == s[i].1 && amap(s, n - 1)[k] == (24 + moff(s, i)) as usize;
            assert(0 <= i < n && s[i].0 == k);
        }
    }
}
pub proof fn lemma_aligned<T>(s: Seq<(usize, Seq<u8>)>, n: int, dim: usize)
    requires fit::<T>(s, dim), 0 <= n <= s.len()
    ensures moff(s, n) % align_of_t::<T>() == 0, forall|p: int, q: int| p % 4096 == 0 && q == 32 + moff(s, n) ==> #[trigger] (p + q) % align_of_t::<T>() == 0
    decreases n
{
    broadcast use ax_align;
    let a = align_of_t::<T>();
    let z = size_of_t::<T>();
    if n > 0 {
        lemma_aligned::<T>(s, n - 1, dim);
        let m = s[n - 1].1.len();
        if a != 1 {
            assert(m % z == 0 && z % (a as nat) == 0);
            lemma_div_div(m as int, z as int, a);
        }
        assert(m % (a as nat) == 0);
        lemma_mod_sum(moff(s, n - 1), 20, m as int, a);
    }
    assert forall|p: int, q: int| p % 4096 == 0 && q == 32 + moff(s, n) implies #[trigger] (p + q) % a == 0 by { lemma_mod_sum(moff(s, n), 32, p, a); }
}
pub proof fn lemma_div_div(m: int, z: int, a: int)
    requires z > 0, a > 0, m % z == 0, z % a == 0
    ensures m % a == 0
{
    vstd::arithmetic::div_mod::lemma_fundamental_div_mod(m, z);
    vstd::arithmetic::div_mod::lemma_fundamental_div_mod(z, a);
    assert(m == (z / a * (m / z)) * a) by (nonlinear_arith) requires m == z * (m / z), z == a * (z / a);
    vstd::arithmetic::div_mod::lemma_mod_multiples_basic(z / a * (m / z), a);
}
pub proof fn lemma_mod_sum(x: int, c: int, y: int, a: int)
    requires a == 1 || a == 2 || a == 4, x % a == 0, c % 4 == 0, y % a == 0 || y % 4096 == 0
    ensures (x + c + y) % a == 0, (y + (c + x)) % a == 0
{}
pub proof fn lemma_parts<T>(s: Seq<(usize, Seq<u8>)>, i: int, dim: usize)
    requires fit::<T>(s, dim), 0 <= i < s.len(), size_of_t::<T>() > 0
    ensures s[i].1.len() / size_of_t::<T>() * size_of_t::<T>() == s[i].1.len(), s[i].1.len() as int / size_of_t::<T>() as int * size_of_t::<T>() as int == s[i].1.len()
{
    let m = s[i].1.len();
    let z = size_of_t::<T>();
    assert(m % z == 0);
    vstd::arithmetic::div_mod::lemma_fundamental_div_mod(m as int, z as int);
    assert(m as int / z as int * z as int == m) by (nonlinear_arith) requires m as int == z as int * (m as int / z as int);
}
