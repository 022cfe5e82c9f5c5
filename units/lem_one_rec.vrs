pub proof fn lemma_one_rec(gb: Seq<u8>, p: int, b: Seq<u8>, dp: int, s: Seq<Seq<Rec>>, l: int, r: int)
    requires layers_at(gb, p, b, dp, s, s.len() as int, 16, true), 0 <= l < s.len(), 0 <= r < s[l].len()
    ensures data_at(b, dp + ldoff(s, l) + doff(s[l], r), s[l][r].id, s[l][r].raw)
{
    hide(data_at); hide(graph_at); hide(at); hide(goff); hide(doff); hide(lgoff); hide(ldoff);
    assert(layer_at(gb, p + lgoff(s, l, 16, true), b, dp + ldoff(s, l), s[l], l, 16, true));
    assert(rec_at(gb, p + lgoff(s, l, 16, true) + 12 + goff(s[l], r, 16, true), b, dp + ldoff(s, l) + doff(s[l], r), s[l][r], l, r, 16, true));
}
