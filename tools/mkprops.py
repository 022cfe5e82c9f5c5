import json
P=[]
def p(id,title,stmt,over,qt,why,files,mech,state=None,observe=None,hook=None):
    d={"id":id,"title":title,"statement":stmt,"quantifier":{"over":over,"text":qt},"why_tests_cant":why,
       "anchors":{"files":files,"mechanism":[{"name":a,"where":b} for a,b in mech]}}
    if state: d["anchors"]["state"]=[{"name":a,"meaning":b,"where":c} for a,b,c in state]
    if observe: d["anchors"]["observe_at"]=observe
    d["anchors"]["hook_needed"]=hook
    P.append(d)
p("P01","Search answers are well-formed and truthful",
  "For every index at rest, every query vector, every number k of neighbours asked and every width ef, a search (plain or filtered) returns at most k answers in non-decreasing distance order, never the same stored point twice. Each answer carries the client id and the position of one stored point and exactly the distance the index's distance function gives from the query to that point. The search does not panic, and on an empty index it returns no answer.",
  ["inputs","histories","configurations"],"all indexes reachable by insertion or reload, all queries, all k, ef (including 0), all filters, all distances that are deterministic, non-negative and never NaN",
  "The tests run a handful of random indexes with one k and ef and look at recall; they never compare every answer with the stored points, nor vary ef below k, k=0, tiny or empty indexes.",
  ["src/hnsw.rs"],[("best-first layer search with result heap and visited table","src/hnsw.rs Hnsw::search_layer"),("greedy descent, width adjustment, truncation to k","src/hnsw.rs Hnsw::search_filter / search / search_possible_filter"),("distance ordering of heap entries","src/hnsw.rs Ord/PartialOrd for PointWithOrder")],
  [("layers and neighbour lists","the stored points and their links","src/hnsw.rs PointIndexation, Point")],["Hnsw::search","Hnsw::search_filter","Hnsw::search_possible_filter"])
p("P02","A filtered search returns only allowed points and misses none it could reach",
  "A filtered search never returns a point whose client id the filter rejects, whether the filter is a sorted id list (membership) or a predicate. When a filtered search with width ef of at least 2 ends with fewer than min(k, ef) answers, every allowed point that can be reached through base-layer links from where the search of the base layer started is among the answers.",
  ["inputs","histories","configurations"],"all indexes, queries, filters, k and ef",
  "The filter tests use one index and two filters whose allowed sets are met early; they never use a filter that rejects everything, or one whose allowed points lie behind rejected ones.",
  ["src/hnsw.rs","src/filter.rs"],[("filter test before a point enters the result heap","src/hnsw.rs Hnsw::search_layer"),("no early stop while the heap is not full","src/hnsw.rs Hnsw::search_layer"),("sorted-list and closure filters","src/filter.rs FilterT impls")],None,["Hnsw::search_filter","Hnsw::search_possible_filter"])
p("P03","A search is locally optimal on the base layer",
  "If a point is linked, in the lowest non-empty layer, from a point that a search returned, and it is allowed by the filter if there is one, then it is itself in the answer, or the answer holds k points none of which is farther from the query than it. In particular, when every stored point can be reached along base-layer links from the search's start and ef is at least the number of points, the answer is the exact list of the k nearest.",
  ["inputs","histories","configurations"],"all indexes at rest, all queries, k, ef >= 1 and filters",
  "The tests measure average recall on random data, which stays high when the stop rule or the heap maintenance is slightly wrong.",
  ["src/hnsw.rs"],[("stop only when the nearest candidate is farther than the farthest kept answer","src/hnsw.rs Hnsw::search_layer"),("keep the ef nearest: evict the farthest","src/hnsw.rs Hnsw::search_layer")],None,["Hnsw::search","Point::get_neighborhood_id"])
p("P04","Neighbour lists never exceed their configured size",
  "Whatever points are inserted, in whatever order and by however many threads, the neighbour list of a point never holds more than the configured maximum number of connections at a layer above the base, nor more than twice that number at the base layer, once the insertions are done.",
  ["inputs","schedules","histories","configurations"],"all insertion histories and interleavings of concurrent insertions, all configurations (connections 1..255, any layer count, keep-pruned and extend-candidates flags)",
  "No test looks at list sizes, and interleavings of concurrent insertions cannot be enumerated by running them.",
  ["src/hnsw.rs"],[("selection bounded by the number asked","src/hnsw.rs Hnsw::select_neighbours"),("append, sort and drop the farthest under the list's write lock","src/hnsw.rs Hnsw::reverse_update_neighborhood_simple"),("bounded push of projected links","src/hnsw.rs Hnsw::insert_slice")],None,["Point::get_neighborhood_id"])
p("P05","Every stored link is genuine",
  "After any history of insertions, sequential or concurrent, each entry of a point's neighbour list at a layer names another stored point, names it at most once in that list, and records exactly the distance between the two points' vectors (for a symmetric distance); each list is in increasing distance order. An insertion changes a list of a point already there only by adding the new point, at the new point's own level, and dropping a farthest entry if the list would then be too long.",
  ["inputs","schedules","histories","configurations"],"all insertion histories and interleavings, all configurations, all symmetric non-NaN distances",
  "The tests never inspect links beyond a handful, and concurrency multiplies the histories.",
  ["src/hnsw.rs"],[("own lists set from the selection","src/hnsw.rs Hnsw::insert_slice"),("duplicate test, append, sort, evict under write lock","src/hnsw.rs Hnsw::reverse_update_neighborhood_simple"),("new point is published only after its lists are complete","src/hnsw.rs Hnsw::insert_slice")],None,["Point::get_neighborhood_id"])
p("P06","Position ids, client ids, vectors and counts agree",
  "Every stored point's position id (layer, rank) is the slot it is stored at, no two points share one, and looking a point or its vector up by that id gives the client id and the vector it was inserted with, while an id naming no stored point gives nothing. The reported numbers of points, in total and per layer, equal the number of completed insertions, under concurrent insertion too.",
  ["inputs","schedules","histories"],"all insertion histories and interleavings, all ids looked up",
  "Tests use one thread count and one index; rank assignment races and bad ids are not sampled.",
  ["src/hnsw.rs"],[("rank taken and point pushed under one write lock","src/hnsw.rs PointIndexation::generate_new_point"),("bounds checks on lookups","src/hnsw.rs PointIndexation::get_point_data / get_point / get_layer_nb_point")],None,["PointIndexation::get_point_data","Hnsw::get_nb_point","PointIndexation::get_layer_nb_point"])
p("P07","The entry point dominates every completed insertion; no point is left unlinked",
  "Under any interleaving of insertions, the entry point's level never decreases and, once an insertion has returned, is at least the level of the inserted point. Each completed insertion leaves its point either the entry point at some moment or with at least one neighbour.",
  ["schedules","histories","inputs"],"all histories and interleavings of insertions, including two threads inserting the very first points",
  "The race window at the first insertions is a few instructions wide; tests insert thousands of points and tolerate one lost.",
  ["src/hnsw.rs"],[("compare and set under the entry point's write lock","src/hnsw.rs PointIndexation::check_entry_point"),("first-point handling","src/hnsw.rs Hnsw::insert_slice")],None,["Hnsw::get_max_level_observed","Hnsw::search"])
p("P08","Iterating over an index visits every stored point exactly once",
  "Iterating over the whole index yields each stored point exactly once, from layer 0 upwards and by rank within a layer, and then ends and stays ended; iterating over one layer yields exactly that layer's points in rank order. This holds for the empty index and for indexes with empty layers.",
  ["inputs","histories","configurations"],"all layer occupancies, including empty layers at the bottom, in the middle and at the top, and the empty index; all numbers of calls",
  "Tests iterate over one random index whose lower layers are all populated.",
  ["src/hnsw.rs"],[("skip of empty layers up to the observed maximum","src/hnsw.rs IterPoint::next"),("layer iterator","src/hnsw.rs IterPointLayer::next")],None,["PointIndexation::into_iter","PointIndexation::get_layer_iterator"])
p("P09","Sampled levels stay in range and the level scale stays clamped",
  "Every level drawn for a new point is below the configured number of layers, whatever the random draw. A level-scale modification multiplies the scale by the requested factor clamped to [0.2, 1].",
  ["inputs","configurations"],"all random draws in [0,1), all scales, all layer counts from 1 to 16, all requested factors",
  "An out-of-range draw has probability around 1e-13 with the defaults, so no test ever sees the redraw branch.",
  ["src/hnsw.rs"],[("redraw when the exponential draw is out of range","src/hnsw.rs LayerGenerator::generate"),("clamp","src/hnsw.rs Hnsw::modify_level_scale")],None,["Hnsw::modify_level_scale","Hnsw::insert"])
p("P10","Dump then reload restores the same index",
  "Dumping an index and reloading it gives an index with the same parameters (connections, layer count, construction width, level scale), the same number of points, the same entry point, and for every point the same position id, client id, vector and, layer by layer, the same neighbours with the same distances.",
  ["inputs","histories","configurations"],"all indexes that can be dumped: any vectors (of plain data of non-zero size), ids, layer occupancies, list contents; at most 255 connections, the 16 layers a new index has, type names up to 256 bytes; neighbours of a list at equal distances may change places",
  "Tests reload a few random indexes; rare shapes (empty layers, points without links, varying vector lengths, non-default scale) are not among them.",
  ["src/hnswio.rs","src/hnsw.rs"],[("graph writer and reader agree field by field","src/hnswio.rs dump_point / load_point_graph, Description dump / load_description"),("links resolved after all points are read","src/hnswio.rs HnswIo::load_point_indexation")],None,["api::AnnT::file_dump","HnswIo::load_hnsw","HnswIo::load_hnsw_with_dist"])
p("P11","Reloading only the graph restores the same links",
  "Reloading a dump with the no-data types gives, without needing the vectors, the same position ids, client ids, entry point and neighbour lists with the same distances as the dumped index.",
  ["inputs","histories","configurations"],"all dumps of all indexes",
  "Tests compare two neighbour lists of one index.",
  ["src/hnswio.rs"],[("data file records skipped, graph records read in full","src/hnswio.rs load_point")],None,["HnswIo::load_hnsw","flatten::FlatNeighborhood"])
p("P12","Memory-mapped vectors equal the dumped ones",
  "For every dump, each vector obtained through the memory map of its data file, directly or through an index reloaded with the memory-map option, equals the vector that was dumped under that client id, an unknown id gives nothing, and no access reads outside the mapped file.",
  ["inputs","configurations"],"all data files written by a dump of an index whose client ids are distinct, all element types, all map thresholds, all client ids",
  "Tests map one file of equal-length f32 vectors and look at a few ids.",
  ["src/datamap.rs","src/hnswio.rs"],[("offset table built from the record lengths","src/datamap.rs DataMap::from_hnswdump"),("slice construction from the offset","src/datamap.rs DataMap::get_data")],None,["DataMap::from_hnswdump","DataMap::get_data","ReloadOptions::set_mmap_threshold"])
p("P13","Damaged or mismatched dumps are refused",
  "Reloading never gives an index from a dump whose magic numbers, element type name, distance name, dimension, layer or client id bookkeeping (a record's layer, its rank in the layer, the client id in graph and data file) are not those expected, or whose graph or data file is truncated: it ends with an error, a panic or an abort.",
  ["inputs","fault_sequences"],"all byte contents of the two dump files",
  "Tests only reload files just written by the same program.",
  ["src/hnswio.rs","src/datamap.rs"],[("magic, name and dimension checks","src/hnswio.rs load_description / HnswIo::load_hnsw / load_point / load_point_graph")],None,["HnswIo::load_hnsw","hnswio::load_description"])
p("P14","Dumping never overwrites a data file that may be mapped",
  "When an index may have vectors mapped from a data file, or when asked not to overwrite, dumping under a base name whose data file already exists writes under a different, fresh base name, returns that name, and leaves existing data files untouched; otherwise it writes under the name given.",
  ["inputs","histories","configurations"],"all base names, directories, prior directory contents and index origins",
  "One test dumps once into an empty directory.",
  ["src/hnswio.rs","src/api.rs"],[("unique name chosen when the data file exists","src/hnswio.rs DumpInit::new"),("overwrite policy","src/hnswio.rs Hnsw dump entry, src/api.rs file_dump")],None,["api::AnnT::file_dump"])
p("P15","Flattening keeps every point and all its neighbours",
  "The flattened view of an index maps each stored client id to all neighbours of that point over all layers, each with its client id, distance and position, sorted by increasing distance, and maps an id that is not stored to nothing.",
  ["inputs","histories"],"all indexes whose client ids are distinct, including the empty one",
  "One test compares the views before and after a reload, which would both be wrong together.",
  ["src/flatten.rs","src/hnsw.rs"],[("collection of all layers then sort","src/flatten.rs flatten_point"),("one entry per iterated point","src/flatten.rs FlatNeighborhood::from"),("copy of the neighbour lists","src/hnsw.rs Point::get_neighborhood_id")],None,["FlatNeighborhood::from","FlatNeighborhood::get_neighbours"])
p("P16","Parallel searches and insertions equal their sequential counterparts",
  "A parallel search over a list of queries returns as many answers as queries, the i-th being what a single search for the i-th query returns, in whatever order the worker threads finish. A parallel insertion inserts each given item exactly once with its own vector and id.",
  ["schedules","inputs"],"all completion orders of the workers, all query and item lists, including the empty one",
  "Completion orders depend on the machine; the tests only look at recall.",
  ["src/hnsw.rs"],[("answers tagged with the query rank, reordered by a table","src/hnsw.rs Hnsw::parallel_search"),("for-each over items","src/hnsw.rs Hnsw::parallel_insert / parallel_insert_slice")],None,["Hnsw::parallel_search","Hnsw::parallel_insert"])
p("P17","The C interface does what the Rust interface does",
  "Every exported C function gives the same effect and answers as the corresponding Rust method: inserted vectors and ids are those pointed to, search answers hold the same ids and distances in the same order and count, dump and reload work on the names given, descriptions report the dumped parameters. An unknown distance name yields a null handle.",
  ["inputs"],"all pointers to valid memory of the stated lengths, all names, all supported element types and distances",
  "No test calls the C interface except one that writes a dump.",
  ["src/libext.rs"],[("macro-generated wrappers","src/libext.rs generate_* macros"),("handle constructors","src/libext.rs init_hnsw_*")],None,["insert_f32","search_neighbours_f32","parallel_insert_f32","parallel_search_neighbours_f32","init_hnsw_f32","load_hnsw_description"])
p("P18","Neighbour selection follows the stated heuristic",
  "When a point is inserted, the neighbours chosen for it at a layer are candidates found there, at most as many as asked, with their true distances. If no more candidates than asked were found and extension is off they are all kept; otherwise a candidate is kept exactly when it is nearer to the new point than to every candidate kept before it (taken by increasing distance), until enough are kept, and with the keep-pruned flag rejected ones fill the remaining places nearest first. Both flags are off in a new index and are what they were last set to; extension concerns the base layer only.",
  ["inputs","configurations"],"all candidate sets, all sizes asked, both flags",
  "Tests see only recall, which is insensitive to the selection rule.",
  ["src/hnsw.rs"],[("selection loop","src/hnsw.rs Hnsw::select_neighbours"),("sign flip of candidate heap","src/hnsw.rs from_positive_binaryheap_to_negative_binary_heap")],None,["Hnsw::insert","Point::get_neighborhood_id"])
p("P19","No operation blocks or loops for ever",
  "Threads that insert, search (also in parallel), iterate, look up, flatten and dump, all on the same index at the same time, are never blocked for ever by its locks, and dropping or reloading an index is not either; nor does a search, the selection of neighbours or a step of an iterator ever loop for ever, whatever the links are. (A thread that keeps an iterator alive while it calls other operations is its own responsibility, as are locks taken by the user's own distance and filter functions.)",
  ["schedules"],"all interleavings of concurrent operations, all lock states","A deadlock needs a rare interleaving; no test runs iteration, lookup or dump concurrently with insertion.",
  ["src/hnsw.rs","src/hnswio.rs","src/flatten.rs","src/api.rs","src/libext.rs"],[("locks of the index: entry point, layers, counts, link lists, level generator","src/hnsw.rs"),("iterators keep a read lock","src/hnsw.rs IterPoint, IterPointLayer"),("dump holds layers and entry point","src/hnswio.rs HnswIoT for PointIndexation::dump")])
p("P20","Dropping an index frees everything",
  "Dropping an index releases every stored point although points refer to each other in cycles.",
  ["histories"],"all indexes built by insertion or reload, all orders of the parallel clearing","No test counts what is still alive after an index is dropped; which points are in a cycle depends on the random layers and on every link.",["src/hnsw.rs"],[("clearing of neighbour lists on drop","src/hnsw.rs Drop for PointIndexation")])
p("P21","Links are made in both directions",
  "When an insertion made while no other thread inserts has returned, each neighbour recorded for the new point at a layer up to its own level has in turn the new point in its list at the new point's level, unless that list is full with entries none of which is farther from it than the new point.",
  ["inputs","histories","configurations"],"all indexes, vectors and configurations, all insertions by one thread, by slice or by vector",
  "The tests only look at recall, which survives the loss of some or all links back: a point that is never linked back can be in no answer, but few queries ask for it.",
  ["src/hnsw.rs"],[("link back in each chosen neighbour's list at the new point's level, then drop the farthest if too long","src/hnsw.rs Hnsw::reverse_update_neighborhood_simple"),("own lists set from the selection before linking back","src/hnsw.rs Hnsw::insert_slice")],None,["Point::get_neighborhood_id"])
p("P22","Reading leaves the index as it is",
  "Searching (single, parallel, filtered), looking points up, asking for counts and parameters, iterating, flattening and dumping change no stored point, vector, id, link, layer, count or entry point, whichever threads do it and in whatever order. So the same search on an index not inserted into meanwhile gives the same answer every time.",
  ["inputs","histories","schedules"],"all indexes, all sequences and interleavings of reading operations",
  "Tests read an index a few times and compare nothing before and after; a change of shared state by a reader shows only in later answers.",
  ["src/hnsw.rs","src/hnswio.rs","src/flatten.rs","src/api.rs","src/libext.rs"],[("reading functions take the locks of the index for reading only","src/hnsw.rs Hnsw::search, search_filter, parallel_search, PointIndexation, Point, IterPoint, IterPointLayer"),("dump","src/hnswio.rs dump, dump_point"),("flattening","src/flatten.rs FlatNeighborhood::from")],None,["Hnsw::search","Hnsw::search_filter","Point::get_neighborhood_id","Hnsw::file_dump"])
with open('/verif/properties.jsonl','w') as f:
    for d in P:
        assert len(d["title"])<=80,d["id"]
        f.write(json.dumps(d)+"\n")
