pub proof fn lemma_descr_unique(b: Seq<u8>, p: int, x: Description, y: Description)
    requires descr_at(b, p, x), descr_at(b, p, y), y.format_version == 4
    ensures same_descr(x, y)
{
    broadcast use ax_enc_len, ax_dec, lemma_at_unique;
    assert(num_at(b, p, magic_of(x.format_version)) && num_at(b, p, magic_of(y.format_version)));
    assert(magic_of(x.format_version) == magic_of(y.format_version));
    assert(x.dumpmode == y.dumpmode && x.max_nb_connection == y.max_nb_connection && x.level_scale == y.level_scale);
    assert(x.distname@.len() as usize == y.distname@.len() as usize);
    assert(x.distname@ == y.distname@);
    assert(x.t_name@.len() as usize == y.t_name@.len() as usize);
}

