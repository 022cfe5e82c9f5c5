// what stands at one place with one length is one thing
pub broadcast proof fn lemma_at_unique(b: Seq<u8>, p: int, x: Seq<u8>, y: Seq<u8>)
    requires #[trigger] at(b, p, x), #[trigger] at(b, p, y), x.len() == y.len()
    ensures x == y
{}
pub broadcast proof fn lemma_at_fits(b: Seq<u8>, p: int, x: Seq<u8>)
    requires #[trigger] at(b, p, x)
    ensures 0 <= p, p + x.len() <= b.len()
{}
pub proof fn lemma_loff_nonneg(nb: Seq<Seq<Neighbour>>, l: int, full: bool)
    ensures loff(nb, l, full) >= 0
    decreases l
{ if l > 0 { lemma_loff_nonneg(nb, l - 1, full); } }
pub broadcast proof fn lemma_loff_ext(a: Seq<Seq<Neighbour>>, b: Seq<Seq<Neighbour>>, l: int, full: bool)
    requires forall|i: int| 0 <= i < l ==> a[i].len() == b[i].len()
    ensures #[trigger] loff(a, l, full) == #[trigger] loff(b, l, full)
    decreases l
{ if l > 0 { lemma_loff_ext(a, b, l - 1, full); } }
pub proof fn lemma_div_le(a: int, b: int)
    requires a >= 0, b > 0
    ensures a / b * b <= a, 0 <= a / b <= a, a % b == 0 ==> a / b * b == a
{ vstd::arithmetic::div_mod::lemma_fundamental_div_mod(a, b); vstd::arithmetic::div_mod::lemma_div_pos_is_pos(a, b); vstd::arithmetic::div_mod::lemma_div_is_ordered_by_denominator(a, 1, b); vstd::arithmetic::mul::lemma_mul_is_commutative(a / b, b); vstd::arithmetic::div_mod::lemma_mod_bound(a, b); }
pub broadcast proof fn lemma_goff_ext(a: Seq<Rec>, b: Seq<Rec>, r: int, n: int, full: bool)
    requires forall|i: int| 0 <= i < r ==> a[i] == b[i]
    ensures #[trigger] goff(a, r, n, full) == #[trigger] goff(b, r, n, full)
    decreases r
{ if r > 0 { lemma_goff_ext(a, b, r - 1, n, full); } }
pub broadcast proof fn lemma_doff_ext(a: Seq<Rec>, b: Seq<Rec>, r: int)
    requires forall|i: int| 0 <= i < r ==> a[i] == b[i]
    ensures #[trigger] doff(a, r) == #[trigger] doff(b, r)
    decreases r
{ if r > 0 { lemma_doff_ext(a, b, r - 1); } }
pub proof fn lemma_lgoff_ext(a: Seq<Seq<Rec>>, b: Seq<Seq<Rec>>, l: int, n: int, full: bool)
    requires forall|i: int| 0 <= i < l ==> a[i] == b[i]
    ensures lgoff(a, l, n, full) == lgoff(b, l, n, full), ldoff(a, l) == ldoff(b, l)
    decreases l
{ if l > 0 { lemma_lgoff_ext(a, b, l - 1, n, full); } }
pub proof fn lemma_goff_ge(s: Seq<Rec>, r: int, n: int, full: bool)
    requires r >= 0
    ensures goff(s, r, n, full) >= r, doff(s, r) >= 0
    decreases r
{ if r > 0 { lemma_goff_ge(s, r - 1, n, full); lemma_loff_nonneg(s[r - 1].nb, n, full); } }
pub proof fn lemma_lgoff_ge(s: Seq<Seq<Rec>>, l: int, n: int, full: bool)
    ensures lgoff(s, l, n, full) >= 0, ldoff(s, l) >= 0
    decreases l
{ if l > 0 { lemma_lgoff_ge(s, l - 1, n, full); lemma_goff_ge(s[l - 1], s[l - 1].len() as int, n, full); } }
pub proof fn lemma_links_unique(b: Seq<u8>, p: int, x: Seq<Neighbour>, y: Seq<Neighbour>)
    requires list_at(b, p, x, true), list_at(b, p, y, true)
    ensures x == y
{
    broadcast use ax_enc_len, ax_dec, lemma_at_unique;
    assert(x.len() == y.len()) by { assert(num_at(b, p, x.len() as usize)); assert(num_at(b, p, y.len() as usize)); }
    assert forall|i: int| 0 <= i < x.len() implies x[i] == y[i] by { assert(link_at(b, p + 8 + upto(i, true), x[i], true)); assert(link_at(b, p + 8 + upto(i, true), y[i], true)); }
    assert(x =~= y);
}
pub proof fn lemma_lists_unique(b: Seq<u8>, p: int, x: Seq<Seq<Neighbour>>, y: Seq<Seq<Neighbour>>, n: int, l: int)
    requires lists_at(b, p, x, n, true), lists_at(b, p, y, n, true), l <= n
    ensures forall|i: int| 0 <= i < l ==> x[i] == y[i]
    decreases l
{
    hide(list_at);
    if l > 0 {
        lemma_lists_unique(b, p, x, y, n, l - 1);
        lemma_loff_ext(x, y, l - 1, true);
        lemma_links_unique(b, p + loff(x, l - 1, true), x[l - 1], y[l - 1]);
    }
}
pub proof fn lemma_pair_unique(gb: Seq<u8>, gp: int, db: Seq<u8>, dp: int, x: Rec, y: Rec, n: int)
    requires pair_at(gb, gp, db, dp, x, n, true), pair_at(gb, gp, db, dp, y, n, true), x.nb.len() == y.nb.len()
    ensures x == y
{
    broadcast use ax_enc_len, ax_dec, lemma_at_unique;
    assert(graph_at(gb, gp, x, n, true) && graph_at(gb, gp, y, n, true));
    assert(data_at(db, dp, x.id, x.raw) && data_at(db, dp, y.id, y.raw));
    lemma_lists_unique(gb, gp + 17, x.nb, y.nb, n, n);
    assert(x.nb =~= y.nb) by { assert forall|l: int| 0 <= l < x.nb.len() implies x.nb[l] == y.nb[l] by { if l >= n { assert(x.nb[l].len() == 0 && y.nb[l].len() == 0); assert(x.nb[l] =~= y.nb[l]); } } }
    assert(x.p_id.0 == y.p_id.0 && x.p_id.1 == y.p_id.1);
    assert(num_at(db, dp + 12, x.raw.len() as u64) && num_at(db, dp + 12, y.raw.len() as u64));
    assert(x.raw == y.raw);
}
pub proof fn lemma_map_add(m: Map<PointId, Vec<Vec<Neighbour>>>, v: Vec<Vec<Neighbour>>, s: Seq<Seq<Rec>>, cur: Seq<Rec>, g: Rec)
    requires map_has(m, s.push(cur)), ids_ok(s.push(cur)), vviews(v@) == g.nb, g.p_id == PointId(s.len() as u8, cur.len() as i32), cur.len() <= i32::MAX
    ensures map_has(m.insert(g.p_id, v), s.push(cur.push(g))), ids_ok(s.push(cur.push(g)))
{
    let m2 = m.insert(g.p_id, v);
    let a = s.push(cur);
    let b = s.push(cur.push(g));
    assert forall|l: int, r: int| 0 <= l < b.len() && 0 <= r < b[l].len() implies has(m2, #[trigger] b[l][r]) && b[l][r].p_id == PointId(l as u8, r as i32) && r <= i32::MAX by {
        if l < s.len() || r < cur.len() { assert(b[l][r] == a[l][r]); assert(has(m, a[l][r])); assert(a[l][r].p_id == PointId(l as u8, r as i32)); }
    }
    assert forall|k: PointId| #[trigger] m2.dom().contains(k) implies named(b, k) by {
        if k != g.p_id { assert(m.dom().contains(k)); assert(named(a, k)); }
    }
}
pub proof fn lemma_fresh_add<'b, T: Clone + Send + Sync>(h: Map<int, NLists<'b, T>>, h2: Map<int, NLists<'b, T>>, own: Map<int, (int, int)>, pv: Seq<Seq<Arc<Point<'b, T>>>>, vl: Seq<Arc<Point<'b, T>>>, p: Arc<Point<'b, T>>)
    requires fresh(h, own, pv.push(vl)), made(h, h2, lid(p)), !h.dom().contains(lid(p))
    ensures fresh(h2, own.insert(lid(p), (pv.len() as int, vl.len() as int)), pv.push(vl.push(p)))
{
    let a = pv.push(vl);
    let b = pv.push(vl.push(p));
    let own2 = own.insert(lid(p), (pv.len() as int, vl.len() as int));
    assert forall|l: int, r: int| 0 <= l < b.len() && 0 <= r < b[l].len() implies own_at(h2, own2, #[trigger] b[l][r], l, r) && is_empties(h2[lid(b[l][r])]) by {
        if l < pv.len() || r < vl.len() { assert(b[l][r] == a[l][r]); assert(own_at(h, own, a[l][r], l, r)); }
    }
}
pub proof fn lemma_total_le(s: Seq<Seq<Rec>>, l: int, m: int)
    requires 0 <= l <= m <= s.len()
    ensures 0 <= total(s, l) <= total(s, m)
    decreases m
{ if l < m { lemma_total_le(s, l, m - 1); } else if l > 0 { lemma_total_le(s, l - 1, l - 1); } }
// ---- one more record, one more layer
pub proof fn lemma_rec_push(gb: Seq<u8>, lg: int, db: Seq<u8>, ld: int, cur: Seq<Rec>, g: Rec, l: int, n: int, full: bool)
    requires recs_at(gb, lg, db, ld, cur, l, cur.len() as int, n, full), pair_at(gb, lg + goff(cur, cur.len() as int, n, full), db, ld + doff(cur, cur.len() as int), g, n, full),
        g.p_id == PointId(l as u8, cur.len() as i32), cur.len() <= i32::MAX
    ensures recs_at(gb, lg, db, ld, cur.push(g), l, ((cur.len() + 1) as int) as int, n, full), goff(cur.push(g), ((cur.len() + 1) as int) as int, n, full) == goff(cur, cur.len() as int, n, full) + graph_len(g, n, full),
        doff(cur.push(g), (cur.len() + 1) as int) == doff(cur, cur.len() as int) + data_len(g.raw), goff(cur, cur.len() as int, n, full) >= 0, doff(cur, cur.len() as int) >= 0
{
    hide(graph_at); hide(data_at);
    let now = cur.push(g);
    assert forall|q: int| 0 <= q < cur.len() + 1 implies rec_at(gb, lg + goff(now, q, n, full), db, ld + doff(now, q), #[trigger] now[q], l, q, n, full) by {
        lemma_goff_ext(cur, now, q, n, full); lemma_doff_ext(cur, now, q);
        if q < cur.len() { assert(now[q] == cur[q]); assert(rec_at(gb, lg + goff(cur, q, n, full), db, ld + doff(cur, q), cur[q], l, q, n, full)); }
    }
    lemma_goff_ext(cur, now, cur.len() as int, n, full); lemma_doff_ext(cur, now, cur.len() as int);
    lemma_goff_ge(cur, cur.len() as int, n, full);
}
pub proof fn lemma_layer_push(gb: Seq<u8>, p: int, db: Seq<u8>, dp: int, s: Seq<Seq<Rec>>, cur: Seq<Rec>, n: int, full: bool)
    requires layers_at(gb, p, db, dp, s, s.len() as int, n, full), cur.len() <= usize::MAX,
        num_at(gb, p + lgoff(s, s.len() as int, n, full), MAGICLAYER), num_at(gb, p + lgoff(s, s.len() as int, n, full) + 4, cur.len() as usize),
        recs_at(gb, p + lgoff(s, s.len() as int, n, full) + 12, db, dp + ldoff(s, s.len() as int), cur, s.len() as int, cur.len() as int, n, full),
    ensures layers_at(gb, p, db, dp, s.push(cur), (s.len() + 1) as int, n, full), lgoff(s.push(cur), (s.len() + 1) as int, n, full) == lgoff(s, s.len() as int, n, full) + 12 + goff(cur, cur.len() as int, n, full),
        ldoff(s.push(cur), (s.len() + 1) as int) == ldoff(s, s.len() as int) + doff(cur, cur.len() as int)
{
    hide(recs_at);
    let now = s.push(cur);
    assert forall|q: int| 0 <= q < s.len() + 1 implies layer_at(gb, p + lgoff(now, q, n, full), db, dp + ldoff(now, q), #[trigger] now[q], q, n, full) by {
        lemma_lgoff_ext(s, now, q, n, full);
        if q < s.len() { assert(now[q] == s[q]); assert(layer_at(gb, p + lgoff(s, q, n, full), db, dp + ldoff(s, q), s[q], q, n, full)); }
    }
    lemma_lgoff_ext(s, now, s.len() as int, n, full);
}
pub proof fn lemma_no_recs(gb: Seq<u8>, lg: int, db: Seq<u8>, ld: int, l: int, n: int, full: bool)
    ensures recs_at(gb, lg, db, ld, Seq::<Rec>::empty(), l, 0, n, full), goff(Seq::<Rec>::empty(), 0, n, full) == 0, doff(Seq::<Rec>::empty(), 0) == 0
{}
pub proof fn lemma_no_layers(gb: Seq<u8>, p: int, db: Seq<u8>, dp: int, n: int, full: bool)
    ensures layers_at(gb, p, db, dp, Seq::<Seq<Rec>>::empty(), 0, n, full), lgoff(Seq::<Seq<Rec>>::empty(), 0, n, full) == 0, ldoff(Seq::<Seq<Rec>>::empty(), 0) == 0
{}
pub proof fn lemma_map_none(m: Map<PointId, Vec<Vec<Neighbour>>>)
    requires m.dom() == Set::<PointId>::empty()
    ensures map_has(m, Seq::<Seq<Rec>>::empty().push(Seq::<Rec>::empty())), ids_ok(Seq::<Seq<Rec>>::empty())
{
    let s = Seq::<Seq<Rec>>::empty().push(Seq::<Rec>::empty());
    assert forall|k: PointId| #[trigger] m.dom().contains(k) implies named(s, k) by { assert(Set::<PointId>::empty().contains(k)); }
}
pub proof fn lemma_map_open(m: Map<PointId, Vec<Vec<Neighbour>>>, s: Seq<Seq<Rec>>)
    requires ids_ok(s), s.len() < 16
    ensures ids_ok(s.push(Seq::<Rec>::empty()))
{
    let b = s.push(Seq::<Rec>::empty());
    assert forall|l: int, r: int| 0 <= l < b.len() && 0 <= r < b[l].len() implies (#[trigger] b[l][r]).p_id == PointId(l as u8, r as i32) && r <= i32::MAX by { assert(b[l][r] == s[l][r]); }
}
pub proof fn lemma_map_next(m: Map<PointId, Vec<Vec<Neighbour>>>, s: Seq<Seq<Rec>>)
    requires map_has(m, s)
    ensures map_has(m, s.push(Seq::<Rec>::empty()))
{
    let b = s.push(Seq::<Rec>::empty());
    assert forall|l: int, r: int| 0 <= l < b.len() && 0 <= r < b[l].len() implies has(m, #[trigger] b[l][r]) by { assert(has(m, s[l][r])); }
    assert forall|k: PointId| #[trigger] m.dom().contains(k) implies named(b, k) by { assert(named(s, k)); }
}
pub proof fn lemma_map_done(m: Map<PointId, Vec<Vec<Neighbour>>>, s: Seq<Seq<Rec>>)
    requires map_has(m, s.push(Seq::<Rec>::empty()))
    ensures map_has(m, s)
{
    let b = s.push(Seq::<Rec>::empty());
    assert forall|l: int, r: int| 0 <= l < s.len() && 0 <= r < s[l].len() implies has(m, #[trigger] s[l][r]) by { assert(has(m, b[l][r])); }
    assert forall|k: PointId| #[trigger] m.dom().contains(k) implies named(s, k) by { assert(named(b, k)); }
}
pub proof fn lemma_layer_ok_push<'b, T: Clone + Send + Sync>(v: Seq<Arc<Point<'b, T>>>, cur: Seq<Rec>, p: Arc<Point<'b, T>>, g: Rec)
    requires layer_ok(v, cur), pt_ok(p, g)
    ensures layer_ok(v.push(p), cur.push(g))
{
    assert forall|r: int| 0 <= r < cur.push(g).len() implies pt_ok(#[trigger] v.push(p)[r], cur.push(g)[r]) by { if r < cur.len() { assert(pt_ok(v[r], cur[r])); } }
}
pub proof fn lemma_pts_ok_push<'b, T: Clone + Send + Sync>(pv: Seq<Seq<Arc<Point<'b, T>>>>, s: Seq<Seq<Rec>>, v: Seq<Arc<Point<'b, T>>>, cur: Seq<Rec>)
    requires pts_ok(pv, s), layer_ok(v, cur)
    ensures pts_ok(pv.push(v), s.push(cur))
{
    assert forall|l: int| 0 <= l < s.push(cur).len() implies layer_ok(#[trigger] pv.push(v)[l], s.push(cur)[l]) by { if l < s.len() { assert(layer_ok(pv[l], s[l])); } }
}
// ---- the next layer, the next record of a dump that is there
pub proof fn lemma_c_layer(gb: Seq<u8>, p: int, db: Seq<u8>, dp: int, c: Seq<Seq<Rec>>, l: int, n: int, full: bool)
    requires layers_at(gb, p, db, dp, c, c.len() as int, n, full), 0 <= l < c.len()
    ensures num_at(gb, p + lgoff(c.take(l), l, n, full), MAGICLAYER), num_at(gb, p + lgoff(c.take(l), l, n, full) + 4, c[l].len() as usize), c[l].len() <= usize::MAX,
        recs_at(gb, p + lgoff(c.take(l), l, n, full) + 12, db, dp + ldoff(c.take(l), l), c[l], l, c[l].len() as int, n, full)
{
    hide(recs_at);
    lemma_lgoff_ext(c.take(l), c, l, n, full);
    assert(layer_at(gb, p + lgoff(c, l, n, full), db, dp + ldoff(c, l), c[l], l, n, full));
}
pub proof fn lemma_c_rec<T>(gb: Seq<u8>, lg: int, db: Seq<u8>, ld: int, c: Seq<Seq<Rec>>, ep: (usize, PointId), l: int, r: int, n: int, full: bool)
    requires coherent::<T>(c, ep), 0 <= l < c.len(), 0 <= r < c[l].len(), recs_at(gb, lg, db, ld, c[l], l, c[l].len() as int, n, full)
    ensures pair_at(gb, lg + goff(c[l].take(r), r, n, full), db, ld + doff(c[l].take(r), r), c[l][r], n, full), readable::<T>(c[l][r]), c[l][r].nb.len() == 16,
        c[l][r].p_id == PointId(l as u8, r as i32), r <= i32::MAX
{
    hide(graph_at); hide(data_at);
    lemma_goff_ext(c[l].take(r), c[l], r, n, full); lemma_doff_ext(c[l].take(r), c[l], r);
    assert(rec_at(gb, lg + goff(c[l], r, n, full), db, ld + doff(c[l], r), c[l][r], l, r, n, full));
    assert(rec_ok::<T>(c, c[l][r]));
}
pub proof fn lemma_c_end(gb: Seq<u8>, p: int, db: Seq<u8>, dp: int, s: Seq<Seq<Rec>>, ep: (usize, PointId), n: int, full: bool)
    requires index_at(gb, p, db, dp, s, ep, n, full)
    ensures num_at(gb, p, s.len() as u8), s.len() <= 16, layers_at(gb, p + 1, db, dp, s, s.len() as int, n, full),
        num_at(gb, p + 1 + lgoff(s, s.len() as int, n, full), ep.0), num_at(gb, p + 9 + lgoff(s, s.len() as int, n, full), ep.1.0), num_at(gb, p + 10 + lgoff(s, s.len() as int, n, full), ep.1.1)
{ hide(layers_at); }
pub proof fn lemma_c_made(gb: Seq<u8>, p: int, db: Seq<u8>, dp: int, s: Seq<Seq<Rec>>, ep: (usize, PointId), n: int, full: bool)
    requires num_at(gb, p, s.len() as u8), s.len() <= 16, layers_at(gb, p + 1, db, dp, s, s.len() as int, n, full),
        num_at(gb, p + 1 + lgoff(s, s.len() as int, n, full), ep.0), num_at(gb, p + 9 + lgoff(s, s.len() as int, n, full), ep.1.0), num_at(gb, p + 10 + lgoff(s, s.len() as int, n, full), ep.1.1)
    ensures index_at(gb, p, db, dp, s, ep, n, full)
{ hide(layers_at); }
pub proof fn lemma_pair_fits(gb: Seq<u8>, gp: int, db: Seq<u8>, dp: int, g: Rec, n: int, full: bool)
    requires pair_at(gb, gp, db, dp, g, n, full)
    ensures 0 <= gp <= gb.len(), 0 <= dp <= db.len()
{ assert(num_at(gb, gp, MAGICPOINT)); assert(num_at(db, dp, MAGICDATAP)); }
//@include lem_descr.vrs
//@if !P13
// a reloaded point is the dumped one: same ids, same vector
pub proof fn lemma_same_point<'b, T: Clone + Send + Sync>(p: Arc<Point<'b, T>>, g: Rec, v: Seq<T>)
    requires pt_ok(p, g), g.raw == raw_of(v), !nodata::<T>(), size_of_t::<T>() > 0
    ensures p.data@ == v, p.origin_id == g.id, p.p_id == g.p_id
{ ax_raw_inj(p.data@, v); }
//@endif
