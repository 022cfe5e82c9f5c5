//@if !P13
// ---- the data file of a dump is filled by its records
pub proof fn lemma_flat_off(a: Seq<(usize, Seq<u8>)>, x: Seq<Rec>, r: int)
    requires 0 <= r <= x.len()
    ensures moff(a + flat1(x), a.len() + r) == moff(a, a.len() as int) + doff(x, r)
    decreases r
{
    let t = a + flat1(x);
    if r > 0 { lemma_flat_off(a, x, r - 1); assert(t[a.len() + r - 1] == flat1(x)[r - 1]); }
    else { lemma_moff_ext(t, a, a.len() as int); }
}
//@include lem_one_rec.vrs
pub proof fn lemma_flat(b: Seq<u8>, gb: Seq<u8>, p: int, s: Seq<Seq<Rec>>, l: int)
    requires layers_at(gb, p, b, 12, s, s.len() as int, 16, true), 0 <= l <= s.len()
    ensures flat(s, l).len() == total(s, l), moff(flat(s, l), flat(s, l).len() as int) == ldoff(s, l), drecs_at(b, flat(s, l), flat(s, l).len() as int),
        forall|i: int| 0 <= i < flat(s, l).len() ==> is_rec(s, #[trigger] flat(s, l)[i]),
        forall|m: int, r: int| 0 <= m < l && 0 <= r < s[m].len() ==> in_flat(flat(s, l), #[trigger] s[m][r])
    decreases l
{
    hide(data_at); hide(graph_at); hide(at); hide(layers_at); hide(drec_at);
    if l > 0 {
        lemma_flat(b, gb, p, s, l - 1);
        let a = flat(s, l - 1);
        let x = s[l - 1];
        let t = flat(s, l);
        lemma_flat_off(a, x, x.len() as int);
        assert forall|i: int| 0 <= i < t.len() implies #[trigger] drec_at(b, t, i) by {
            reveal(drec_at);
            if i < a.len() { lemma_moff_ext(t, a, i); assert(drec_at(b, a, i)); assert(t[i] == a[i]); }
            else { let r = i - a.len(); lemma_flat_off(a, x, r); assert(t[i] == flat1(x)[r]); lemma_one_rec(gb, p, b, 12, s, l - 1, r); }
        }
        assert forall|i: int| 0 <= i < t.len() implies is_rec(s, #[trigger] t[i]) by {
            if i < a.len() { assert(t[i] == a[i]); } else { let r = i - a.len(); assert(t[i] == flat1(x)[r]); assert(s[l - 1][r].id == t[i].0); }
        }
        assert forall|m: int, r: int| 0 <= m < l && 0 <= r < s[m].len() implies in_flat(t, #[trigger] s[m][r]) by {
            if m < l - 1 { assert(in_flat(a, s[m][r])); let i = choose|i: int| 0 <= i < a.len() && #[trigger] a[i] == (s[m][r].id, s[m][r].raw); assert(t[i] == a[i]); }
            else { assert(t[a.len() + r] == flat1(x)[r]); }
        }
    }
}
pub open spec fn is_rec(s: Seq<Seq<Rec>>, e: (usize, Seq<u8>)) -> bool { exists|m: int, r: int| 0 <= m < s.len() && 0 <= r < s[m].len() && (#[trigger] s[m][r]).id == e.0 && s[m][r].raw == e.1 }
pub open spec fn in_flat(t: Seq<(usize, Seq<u8>)>, g: Rec) -> bool { exists|i: int| 0 <= i < t.len() && #[trigger] t[i] == (g.id, g.raw) }
pub proof fn lemma_dump_map<T, D>(gb: Seq<u8>, db: Seq<u8>, d: Description, s: Seq<Seq<Rec>>, ep: (usize, PointId))
    requires whole_dump::<T, D>(gb, db, d, s, ep), map_needs::<T>(d, db, s)
    ensures fills(db, flat(s, s.len() as int)), flat(s, s.len() as int).len() <= i32::MAX, records(map_of(db), s), tname::<T>() == d.t_name@ ==> fit::<T>(flat(s, s.len() as int), d.dimension)
{
    hide(data_at); hide(graph_at); hide(at); hide(layers_at); hide(descr_at); hide(drecs_at); hide(rec_ok);
    broadcast use ax_enc_len;
    let n = s.len() as int;
    let t = flat(s, n);
    lemma_flat(db, gb, descr_len(d) + 1, s, n);
    lemma_lgoff_ge(s, n, 16, true);
    lemma_fills_unique(db, t, t);
    assert forall|l: int, r: int| 0 <= l < s.len() && 0 <= r < s[l].len() implies map_of(db).dom().contains((#[trigger] s[l][r]).id) && map_of(db)[s[l][r].id] == s[l][r].raw by {
        let k = s[l][r].id;
        assert(in_flat(t, s[l][r]));
        let i = choose|i: int| 0 <= i < t.len() && #[trigger] t[i] == (s[l][r].id, s[l][r].raw);
        lemma_fold_in(t, t.len() as int, k);
        assert(t[i].0 == k);
        let j = choose|j: int| 0 <= j < t.len() && (#[trigger] t[j]).0 == k && mfold(t, t.len() as int)[k] == t[j].1;
        assert(is_rec(s, t[j]));
        let (m, q) = choose|m: int, q: int| 0 <= m < s.len() && 0 <= q < s[m].len() && (#[trigger] s[m][q]).id == t[j].0 && s[m][q].raw == t[j].1;
        assert(s[l][r].id == s[m][q].id);
    }
    if tname::<T>() == d.t_name@ && size_of_t::<T>() > 0 {
        if nodata::<T>() { ax_nodata::<T>(); }
        assert forall|i: int| 0 <= i < t.len() implies (#[trigger] t[i]).1.len() % size_of_t::<T>() == 0 by {
            assert(is_rec(s, t[i]));
            let (m, q) = choose|m: int, q: int| 0 <= m < s.len() && 0 <= q < s[m].len() && (#[trigger] s[m][q]).id == t[i].0 && s[m][q].raw == t[i].1;
            assert(rec_ok::<T>(s, s[m][q]));
            reveal(rec_ok);
        }
    }
}
//@endif
