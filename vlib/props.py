"""Which units and which replay decide each property."""
TRUSTED = {
    "float-order": "f32 comparison on non-NaN values is a total preorder given by an integer key, negation reverses it, NaN is unordered; no float arithmetic is interpreted",
    "containers": "contracts assumed for std/hashbrown containers: BinaryHeap (a bag; pop/peek give a maximum of Ord; into_sorted_vec sorts), HashMap, slice::sort, Iterator::map+collect",
    "at-rest": "the index is at rest during a search: no other thread writes, so every read lock returns the one current value",
    "distance": "a Distance is a deterministic function of the two vectors, never NaN, never negative",
    "filter": "a predicate filter is a deterministic function of the id that does not panic",
    "f64": "f64 arithmetic is uninterpreted; f64 comparison is a total preorder given by a key on non-NaN values; a cast to usize saturates",
    "locks": "a lock hands out a value that satisfies what it protects and takes back one reached by an allowed step (rely-guarantee); every write in src/hnsw.rs is such a step, proved; between threads nothing else is assumed of the order in which locks are taken, except that the point a thread has just stored has no other writer until it is linked",
    "io": "contracts assumed for byte streams: read_exact fills the buffer with the next bytes or fails, File::open reads the file's content from its start, to/from_ne_bytes are inverse; writes are complete or fail",
    "files": "no other process changes the dump files while they are read; the content of a file is a fixed byte string",
    "mmap": "a memory map shows the bytes of the file it was made of, from the start of a page, and reading is allowed within the length asked for if the file is that long",
    "plain-data": "the element type of the vectors is plain data: equal bytes are equal values (bincode's and from_raw_parts' reading of a record is one uninterpreted function of its bytes and a dimension)",
    "drop-glue": "dropping a value releases the values it owns once, an Arc releases what it points to when its last reference goes, and drop runs with the index owned by one thread",
    "rayon": "par_iter().for_each and for_each_with run their closure once for every item, in an unknown order, and return when all are done; a channel's receiver yields what was sent before the last sender was dropped, in an unknown order; a panic in a worker is a panic of the call",
    "c-memory": "pointers given by the C caller point to live memory of the stated length that nothing else writes meanwhile; Box::into_raw and a forgotten vector keep their memory; from_utf8_lossy is one uninterpreted function of the bytes",
    "search": "the answer of a search is a function of the index at rest, the query, k and ef (P01 to P03 say which); for parallel_search it is left uninterpreted",
    "lock-order": "locks are parking_lot's: a thread waits for a lock only while another thread holds it or waits for it, and a guard holds its lock until it is dropped; of each function the compiler's MIR says which locks are taken, where guards go and which functions are called (branches and drop flags kept, values unknown, unwinding left out); the user's distance, filter and element types take no lock of the index; a thread does not call the index while it keeps an iterator; a dyn AnnT's drop is that of the index",
    "effects": "a shared reference changes nothing but through a lock, an atomic, a cell or a raw pointer, which the MIR of the crate shows by the types of the calls and places; library code changes nothing of the index but by calling back; the user's distance and filter functions and element types change nothing and depend on nothing but their arguments",
    "one-thread": "no other thread uses the index meanwhile: a lock gives what was last put in it; two stored points have different locks",
    "usize-64": "usize is 64 bits wide",
}
PROPS = {
    "P01": dict(note="Proved for all indexes at rest, queries, k, ef and filters: at most k answers, in order, distinct, with true ids and distances, no panic, from the real text of search_layer, search_filter and what they call. Trusts: container contracts, f32 order, Distance never NaN or negative, at-rest lock reads, and the representation invariant of the index (see P05, P06).",
                units=[("search", ["P01"])], replay=True, replay_ms=8000, assumes=["float-order", "containers", "at-rest", "distance"],
                rule="random indexes of up to 120 points and 12 searches each; non-trivial when some answer has two points or more"),
    "P02": dict(note="Proved for all indexes at rest, queries, k, ef and filters: only allowed points; with fewer answers than min(k, ef) and ef >= 2, all allowed points of a set closed under base-layer links and containing the start are answered; the two filters of the crate mean membership / the predicate. Trusts as P01, and a deterministic filter.",
                units=[("search", ["P02"])], replay=True, replay_ms=8000, assumes=["float-order", "containers", "at-rest", "distance", "filter"],
                rule="random indexes, filtered searches; non-trivial when a non-empty answer is shorter than asked, so that completeness is at stake"),
    "P03": dict(note="Proved for all indexes at rest, queries, k, ef and filters: every allowed base-layer link of an answer is answered or k answers are at least as near. Trusts as P01.",
                units=[("search", ["P03"])], replay=True, replay_ms=8000, rlimit=50, assumes=["float-order", "containers", "at-rest", "distance", "filter"],
                rule="random indexes and searches; non-trivial when a point linked from an answer is not itself answered"),
    "P08": dict(note="Proved for all layer occupancies and any number of calls: IterPoint::new/next, IterPointLayer::new/next, into_iter, get_layer_iterator step through exactly the stored points in order, end, stay ended, never index out of bounds. Trusts: an index at rest, Vec and Arc contracts. Bound: fewer than 2^31 points per layer.",
                units=[("iter", [])], replay=True, replay_ms=8000, assumes=["containers", "at-rest"],
                rule="random indexes; non-trivial with two points and two layers or more"),
    "P04": dict(note="Proved for all insertion histories and interleavings, step by step under rely-guarantee contracts on the locks: every list an insertion writes, its own or another point's, stays within its configured size (generate_new_point, search_layer, select_neighbours, reverse_update_neighborhood_simple, check_entry_point, insert_slice, insert). Trusts: the lock contract, container contracts, Distance never NaN or negative, fewer than 2^31 points.",
                units=[("insert", ["rng"])], replay=True, replay_ms=8000, assumes=["locks", "float-order", "containers", "distance", "usize-64"],
                rule="random configurations and insertion orders, some by several threads; non-trivial when a list is full"),
    "P05": dict(note="Proved for all insertion histories and interleavings, step by step under rely-guarantee contracts on the locks: every list stays duplicate-free, ascending, never names its owner, with the pair's distance when the distance is symmetric; another point's list only gains the new point at its level and loses a farthest entry when too long. Trusts: the lock contract, container contracts, Distance never NaN or negative, fewer than 2^31 points.",
                units=[("insert", ["rng"])], replay=True, replay_ms=8000, assumes=["locks", "float-order", "containers", "distance", "usize-64"],
                rule="random configurations and insertion orders, some by several threads; every entry of every list recomputed"),
    "P07": dict(note="Proved for all interleavings under rely-guarantee contracts on the locks: every write of the entry point keeps or raises its level and names a linked point; when insert_slice returns, the entry point's level is at least the new point's, and the new point has been the entry point or has a neighbour. Trusts: the lock contract, container contracts, Distance never NaN or negative, fewer than 2^31 points.",
                units=[("insert", ["rng"])], replay=True, replay_ms=8000, assumes=["locks", "float-order", "containers", "distance", "usize-64"],
                rule="random insertions, and many indexes started by several threads at once"),
    "P18": dict(note="Proved for all indexes at rest, candidate heaps, counts and flags: select_neighbours returns exactly what the stated heuristic selects, all candidates when few, kept ones by increasing distance, then the pruned nearest first, distinct, true distances, never more than asked; insert_slice records at each layer what it so selects among what search_layer finds, with the count of that layer and the index's flags, off at first. Trusts: container contracts, f32 order, Distance never NaN or negative, at-rest lock reads.",
                units=[("select", []), ("link", []), ("points", ["P18", "rng"])], replay=True, replay_ms=8000, assumes=["float-order", "containers", "at-rest", "distance"],
                rule="random candidate lists on random indexes, and lists recorded by insertions compared with what the heuristic selects of the candidates the links allow; non-trivial when a candidate is pruned"),
    "P06": dict(note="Proved for all indexes: a new index is empty; looking up a point or a vector by an id returns exactly the point stored at that slot, nothing for any other id, without panic; counts returned are the stored counts; points carry the id, client id and vector they were built with; under any interleaving an insertion stores one point, at the end of its layer under that slot's id, and counts it once. Trusts: container contracts, the lock contract, at-rest lock reads in lookups.",
                units=[("points", ["rng"]), ("insert", ["rng"])], replay=True, replay_ms=8000, assumes=["locks", "containers", "at-rest", "usize-64"],
                rule="random insertions by several threads; every id and rank looked up, and ids naming nothing"),
    "P09": dict(note="Proved for every draw and every float: generate returns a level below the number of layers; modify_level_scale multiplies the scale by the factor clamped to [0.2, 1]; a new index draws below its own number of layers. f64 arithmetic is uninterpreted (only comparison, and the saturating cast to usize, are used). Assumes the requested factor is not NaN.",
                units=[("level", []), ("points", ["rng"])], replay=True, replay_ms=8000, assumes=["f64", "containers"],
                rule="many draws on random scales and layer counts; every clamped factor compared with the documented one"),
    "P13": dict(note="Proved for all file contents: whenever the real load_hnsw, load_hnsw_with_dist, load_point_indexation, load_point, load_point_graph, load_point_data, load_description return Ok, both files are, byte for byte and record for record, a well-formed dump with the expected magics, names, dimension, layers, ranks and client ids. Trusts: stream and string contracts, container contracts, data bytes read as plain data, files not changed meanwhile.",
                units=[("load", ["P13", "rng"])], replay=True, replay_ms=8000, assumes=["io", "files", "plain-data", "containers", "usize-64"],
                rule="random dumps, each with one field changed or one file cut; non-trivial when the damage is past the description"),
    "P10": dict(note="Proved for all indexes at rest: when the real file_dump returns Ok, the two files hold, byte for byte, the description and every point with its ids, links, distances and vector; and for every such dump whose files open, load_hnsw(_with_dist) returns Ok with exactly these parameters, counts, points, vectors, links and entry point. Both sides share one specification of the format. Trusts: stream, file and string contracts, plain data, container contracts. Names of at most 256 bytes, at most 255 connections, 16 layers.",
                units=[("dump", ["dump", "rng"]), ("load", ["rng"])], replay=True, replay_ms=8000, assumes=["io", "files", "plain-data", "containers", "at-rest", "usize-64"],
                rule="random indexes of several element types, dumped and reloaded; everything compared"),
    "P11": dict(note="As P10, for the type without data: when the real file_dump returns Ok, the files hold every point's ids, links and distances; for every such dump whose files open, load_hnsw with NoData returns Ok with exactly these points, ids, links, distances, entry point and parameters, whatever the vectors are. Trusts: stream, file and string contracts, container contracts.",
                units=[("dump", ["dump", "rng"]), ("load", ["P11", "rng"])], replay=True, replay_ms=8000, assumes=["io", "files", "containers", "at-rest", "usize-64"],
                rule="random indexes dumped and reloaded with the no-data types; every list compared"),
    "P12": dict(note="Proved for all files a dump writes: file_dump leaves a data file holding exactly the records of the points; the real from_hnswdump maps every one of them, by client id, reading only inside the file; get_data returns, for a mapped id, a slice inside the map whose bytes are the record's vector, and nothing for another id; load_hnsw with the option gives every point the bytes dumped. Trusts: mmap, stream, file and container contracts, plain data. Fewer than 2^31 points, alignment at most 4 (8: see known findings).",
                units=[("datamap", []), ("dump", ["dump", "rng"]), ("load", ["rng"])], replay=True, replay_ms=8000, assumes=["mmap", "io", "files", "plain-data", "containers", "at-rest", "usize-64"],
                rule="random dumps of several element types, mapped directly and through a reload; every id read, and ids not dumped"),
    "P14": dict(note="Proved for all directories, names and sets of existing files: the real DumpInit::new and file_dump open for writing only files of the returned name, which is the given one unless asked not to overwrite (or vectors may be mapped) and its data file exists, and then one whose data file does not exist; a new index has no mapped vectors, and a reloaded one that has a data map says so. Trusts: file contracts (metadata fails only for a missing file, nobody else makes files meanwhile).",
                units=[("dump", ["P14", "dump", "rng"]), ("load", ["P13", "opt", "rng"]), ("points", ["opt", "rng"])], replay=True, replay_ms=8000, assumes=["io", "files"],
                rule="random dumps over existing files, from new, reloaded and mapped indexes; all files compared before and after"),
    "P15": dict(note="Proved for all indexes at rest with no NaN distance: every stored client id maps to all links of its point over all layers, with client id, distance and position, by increasing distance, and no other id is mapped; with equal client ids the view holds one of them. Covers flatten_point, get_neighborhood_id, From, get_neighbours and the iterators used. Trusts: container contracts, f32 order, at-rest lock reads.",
                units=[("flatten", [])], replay=True, replay_ms=8000, assumes=["float-order", "containers", "at-rest"],
                rule="random indexes with several layers; non-trivial when a point has links above the base layer"),
    "P16": dict(note="Proved for all query and item lists and all completion orders: parallel_search returns as many answers as queries, the i-th being what search returns for the i-th query, without panic; parallel_insert and parallel_insert_slice make, by worker threads, exactly one insertion for each item, with its vector and id (insert_slice itself is proved to store exactly one such point under any interleaving). Trusts: rayon and channels, the lock contract, container contracts.",
                units=[("psearch", []), ("insert", ["par", "rng"])], replay=True, replay_ms=8000, assumes=["rayon", "search", "locks", "containers", "float-order", "distance", "usize-64"],
                rule="random indexes built by parallel insertion, of item lists of every small length, and parallel searches compared with single ones"),
    "P17": dict(note="Proved for all pointers to valid memory, lengths and names: each exported insert, parallel insert, search, parallel search, file dump, constructor, reload and description function of src/libext.rs (macros expanded as the compiler does) calls the Rust method with exactly the values pointed to and hands back its answer, same ids, distances, order, count, in memory never freed; a handle is null exactly for unknown names, and is of the named distance; AnnT for Hnsw calls the methods it names. Trusts: what the Rust methods do (the other properties), a load or dump result named but not interpreted, the drop functions and lengths given by the caller.",
                units=[("ffi", [])], replay=True, replay_ms=8000, assumes=["c-memory", "search", "usize-64"],
                rule="random indexes built, searched, dumped, reloaded and described through the C functions of every type and distance, compared with the Rust interface on the same dump; unknown names"),
    "P19": dict(note="Proved for every function of the crate that takes a lock, on the locking text of the compiler's own MIR of the real source (locks taken, guards dropped or moved, calls, drop flags, branches): each is called holding only locks that come before all it may take in one fixed order, takes each lock only so, gives back what it took, and waits for other threads holding none; a lemma shows such threads cannot block each other. Every unbounded loop of searching, selecting, iterating has a proved decreasing measure (index at rest). Trusts: reading of MIR, parking_lot, user functions taking no lock of the index.",
                units=[("locks", []), ("search", ["P19"]), ("select", ["P19"]), ("iter", ["P19"])], replay=True, replay_ms=8000, assumes=["lock-order", "rayon", "float-order", "containers", "at-rest", "distance"],
                rule="random operations of every kind by several threads at once on one index; a case fails when a thread is not back after 25 s"),
    "P20": dict(note="Proved for every index whose points lie at or below its entry point's level, as P07 and P13 show of every index built or reloaded: the real Drop for PointIndexation, with its clear_neighborhoods, leaves every link list of every stored point empty, whatever the order of the parallel loop. So no stored point refers to another, and the layers and the entry point, which the drop glue releases, held the only other references. Trusts: the drop glue, rayon, exclusive access in drop, container contracts. The reference counts themselves are tested.",
                units=[("drop", [])], replay=True, replay_ms=8000, assumes=["rayon", "containers", "drop-glue", "usize-64"],
                rule="random indexes of counted elements, and of points read back, dropped; what is still alive is counted"),
    "P21": dict(note="Proved for every index and vector, for one inserting thread with exact contracts on the locks' contents: reverse_update_neighborhood_simple leaves the new point, in its own level's list of each neighbour it records up to that level, or that list full of entries none farther; insert_slice and insert end with that for the lists they recorded. Trusts: search_layer, select_neighbours, generate_new_point, check_entry_point write no list of another point (shown in unit insert), container contracts, f32 order.",
                units=[("link", [])], replay=True, replay_ms=8000, assumes=["one-thread", "float-order", "containers", "distance", "usize-64"],
                rule="random configurations, insertion by insertion; every neighbour recorded for the new point is looked up for the link back"),
    "P22": dict(note="Proved on the calls and effects of the compiler's own MIR of the real source: each searching, looking up, counting, iterating, flattening and dumping function, with all it may call (closures, trait implementations, drop glue), has a contract without permission to change what another reader could see (write locks, atomics and cells of the crate's types, raw pointer writes), for searches also none to draw on chance (random numbers, time, thread, hash order). With Rust's shared references this leaves nothing to change. Trusts: reading of MIR, library code, and user functions without effects.",
                units=[("reads", [])], replay=True, replay_ms=8000, assumes=["effects", "rayon"],
                rule="random indexes read in every way by one or several threads; points, links, counts, dump and the answers of the same searches are compared before and after"),
}

NOT_APPLICABLE = {
}
