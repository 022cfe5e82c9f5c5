pub proof fn lemma_no_recs(gb: Seq<u8>, lg: int, db: Seq<u8>, ld: int, s: Seq<Rec>, l: int, n: int, full: bool)
    ensures recs_at(gb, lg, db, ld, s, l, 0, n, full), goff(s, 0, n, full) == 0, doff(s, 0) == 0
{}
pub proof fn lemma_recs_next(gb: Seq<u8>, lg: int, db: Seq<u8>, ld: int, s: Seq<Rec>, l: int, r: int, n: int, full: bool)
    requires 0 <= r < s.len(), recs_at(gb, lg, db, ld, s, l, r, n, full), rec_at(gb, lg + goff(s, r, n, full), db, ld + doff(s, r), s[r], l, r, n, full)
    ensures recs_at(gb, lg, db, ld, s, l, r + 1, n, full)
{ hide(rec_at); }
pub proof fn lemma_layers_next(gb: Seq<u8>, p: int, db: Seq<u8>, dp: int, s: Seq<Seq<Rec>>, l: int, n: int, full: bool)
    requires 0 <= l < s.len(), layers_at(gb, p, db, dp, s, l, n, full), layer_at(gb, p + lgoff(s, l, n, full), db, dp + ldoff(s, l), s[l], l, n, full)
    ensures layers_at(gb, p, db, dp, s, l + 1, n, full)
{ hide(layer_at); }
pub proof fn lemma_coherent<'b, T: Clone + Send + Sync>(x: PointIndexation<'b, T>)
    requires x.dumpable(), x.entry() is Some
    ensures coherent::<T>(recs_of(x.layers()), x.ep_of()), (*x.nb_point)@ == total(recs_of(x.layers()), recs_of(x.layers()).len() as int)
{
    broadcast use ax_raw_len;
    let s = recs_of(x.layers());
    assert forall|l: int, r: int| 0 <= l < s.len() && 0 <= r < s[l].len() implies (#[trigger] s[l][r]).p_id == PointId(l as u8, r as i32) && r <= i32::MAX && rec_ok::<T>(s, s[l][r]) by {
        let p = *x.layers()[l]@[r];
        assert(s[l][r] == rec_of(p));
        assert(x.stored(p));
        assert(s[l][r].nb.len() == 16);
        let g = s[l][r];
        assert forall|m: int, i: int| 0 <= m < 16 && 0 <= i < g.nb[m].len() implies link_ok(s, #[trigger] g.nb[m][i]) by {
            let e = p.nb(m)[i];
            assert(g.nb[m] == links(p.nb(m)));
            assert(g.nb[m][i] == link(e));
            assert(x.stored(*e.point_ref));
            let q = *e.point_ref;
            assert(s[q.p_id.0 as int][q.p_id.1 as int] == rec_of(*x.layers()[q.p_id.0 as int]@[q.p_id.1 as int]));
            assert(x.layers()[l]@[r].nb(m)[i] == e);
        }
        assert(readable::<T>(g)) by { if !nodata::<T>() { lemma_mul_mod(p.data@.len() as int, size_of_t::<T>() as int); } }
    }
    let q = *x.entry()->0;
    assert(x.stored(q));
    assert(s[q.p_id.0 as int][q.p_id.1 as int] == rec_of(q));
}
pub proof fn lemma_mul_mod(a: int, b: int)
    requires b > 0
    ensures (a * b) % b == 0
{ vstd::arithmetic::div_mod::lemma_mod_multiples_basic(a, b); }
//@include lem_one_rec.vrs
// the vectors of the index are as long as the file allows
pub proof fn lemma_filled<'b, T: Clone + Send + Sync>(x: PointIndexation<'b, T>, gb: Seq<u8>, gp: int, db: Seq<u8>)
    requires x.dumpable(), x.entry() is Some, db.len() <= i64::MAX, index_at(gb, gp - 1, db, 12, recs_of(x.layers()), x.ep_of(), 16, true)
    ensures x.entry()->0.data@.len() * size_of_t::<T>() <= i64::MAX
{
    hide(layers_at); hide(data_at); hide(at);
    broadcast use ax_raw_len;
    let s = recs_of(x.layers());
    let q = *x.entry()->0;
    assert(x.stored(q));
    let l = q.p_id.0 as int;
    let r = q.p_id.1 as int;
    assert(s[l][r] == rec_of(*x.layers()[l]@[r]));
    assert(s[l][r] == rec_of(q));
    lemma_one_rec(gb, gp, db, 12, s, l, r);
    reveal(data_at); reveal(at);
}
