//@fn src/hnswio.rs load_description
//@sub? 1.0f64 => varb()
//@sub? distv . as_mut_slice ( ) => &mut distv
//@sub? tnamev . as_mut_slice ( ) => &mut tnamev
//@ret r
//@spec
    requires 
//@if !P13
        exists|d: Description| descr_ok(d) && #[trigger] descr_at(old(io_in).b(), old(io_in).p(), d),
//@endif
    ensures final(io_in).b() == old(io_in).b(),
        r is Ok ==> descr_at(old(io_in).b(), old(io_in).p(), r->Ok_0) && final(io_in).p() == old(io_in).p() + descr_len(r->Ok_0),
//@if !P13
        r is Ok, forall|d: Description| descr_ok(d) && #[trigger] descr_at(old(io_in).b(), old(io_in).p(), d) ==> same_descr(r->Ok_0, d),
//@at start
    let ghost c = choose|d: Description| descr_ok(d) && #[trigger] descr_at(old(io_in).b(), old(io_in).p(), d);
//@at tail
    proof {
        assert forall|d: Description| descr_ok(d) && #[trigger] descr_at(old(io_in).b(), old(io_in).p(), d) implies same_descr(tail__->Ok_0, d) by { lemma_descr_unique(old(io_in).b(), old(io_in).p(), tail__->Ok_0, d); }
    }
//@endif
//@endfn
