#!/usr/bin/env python3
"""benign.py [NAME...]: applies each edit that keeps the behaviour to /repo, runs the checks near it, undoes it. All must stay quiet;
what is printed says which units still prove. (A tool of this directory only; no check uses it.)"""
import json, os, subprocess, sys, time
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
H, IO, DM, L, FL = "src/hnsw.rs", "src/hnswio.rs", "src/datamap.rs", "src/libext.rs", "src/flatten.rs"
B = {}
B["sl_while_let"] = (["P01", "P04"], [(H, """        while !candidate_points.is_empty() {
            // get nearest point in candidate_points
            let c = candidate_points.pop().unwrap();
""", """        while let Some(c) = candidate_points.pop() {
""")])
B["sl_helper"] = (["P02", "P04"], [(H, "                            if filter.as_ref().unwrap().hnsw_filter(id) {\n", "                            if Self::accepted(filter, id) {\n"),
  (H, "    /// insert a tuple (&Vec, usize) with its external id as given by the client.\n", "    fn accepted(filter: Option<&dyn FilterT>, id: &usize) -> bool {\n        filter.as_ref().unwrap().hnsw_filter(id)\n    }\n\n    /// insert a tuple (&Vec, usize) with its external id as given by the client.\n")])
B["sl_match_filter"] = (["P02", "P05"], [(H, """                        if filter.is_none() {
                            return_points.push(Arc::clone(&e_prime));
                        } else {
                            let id: &usize = &e_prime.point_ref.get_origin_id();
                            if filter.as_ref().unwrap().hnsw_filter(id) {
                                if return_points.len() == 1 {
                                    let only_id = return_points.peek().unwrap().point_ref.origin_id;
                                    if !filter.as_ref().unwrap().hnsw_filter(&only_id) {
                                        return_points.clear()
                                    }
                                }
                                return_points.push(Arc::clone(&e_prime))
                            }
                        }
""", """                        match filter {
                            None => return_points.push(Arc::clone(&e_prime)),
                            Some(f) => {
                                let id = e_prime.point_ref.get_origin_id();
                                if f.hnsw_filter(&id) {
                                    if return_points.len() == 1 {
                                        let only_id =
                                            return_points.peek().unwrap().point_ref.origin_id;
                                        if !f.hnsw_filter(&only_id) {
                                            return_points.clear()
                                        }
                                    }
                                    return_points.push(Arc::clone(&e_prime))
                                }
                            }
                        }
""")])
B["sl_continue"] = (["P03", "P07"], [(H, """                    if e_dist_to_p < f_dist_to_p || return_points.len() < ef {
                        let e_prime""", """                    let better = e_dist_to_p < f_dist_to_p;
                    let room = return_points.len() < ef;
                    if better || room {
                        let e_prime""")])
B["sn_while_let"] = (["P18", "P04"], [(H, """                while !candidates.is_empty() {
                    let p = candidates.pop().unwrap();
                    assert!(""", """                while let Some(p) = candidates.pop() {
                    assert!(""")])
B["sn_all"] = (["P18", "P05"], [(H, """                    e_to_insert = !neighbours_vec.iter().any(|d| {
                        self.dist_f.eval(e_point_v, d.point_ref.data.get_v()) <= -e_p.dist_to_ref
                    });
""", """                    e_to_insert = neighbours_vec.iter().all(|d| {
                        self.dist_f.eval(e_point_v, d.point_ref.data.get_v()) > -e_p.dist_to_ref
                    });
""")])
B["sn_loop"] = (["P18", "P07"], [(H, """                if !neighbours_vec.is_empty() {
                    e_to_insert = !neighbours_vec.iter().any(|d| {
                        self.dist_f.eval(e_point_v, d.point_ref.data.get_v()) <= -e_p.dist_to_ref
                    });
                }
""", """                for d in neighbours_vec.iter() {
                    if self.dist_f.eval(e_point_v, d.point_ref.data.get_v()) <= -e_p.dist_to_ref {
                        e_to_insert = false;
                        break;
                    }
                }
""")])
B["sn_pruned_let"] = (["P18"], [(H, """            while !discarded_points.is_empty() && neighbours_vec.len() < nb_neighbours_asked {
                let best_point = discarded_points.pop().unwrap();
""", """            while neighbours_vec.len() < nb_neighbours_asked {
                let Some(best_point) = discarded_points.pop() else {
                    break;
                };
""")])
B["is_tuple_if"] = (["P04", "P05"], [(H, """                let nb_conn;
                let extend_c;
                if l == 0 {
                    nb_conn = 2 * self.max_nb_connection;
                    extend_c = self.extend_candidates;
                } else {
                    nb_conn = self.max_nb_connection;
                    extend_c = false;
                }
""", """                let (nb_conn, extend_c) = if l == 0 {
                    (2 * self.max_nb_connection, self.extend_candidates)
                } else {
                    (self.max_nb_connection, false)
                };
""")])
B["is_helper"] = (["P04", "P07", "P19"], [(H, """                    nb_conn = 2 * self.max_nb_connection;
                    extend_c""", """                    nb_conn = self.max_links(0);
                    extend_c"""), (H, """                    let threshold_shrinking = if l_n > 0 {
                        self.max_nb_connection
                    } else {
                        2 * self.max_nb_connection
                    };
""", """                    let threshold_shrinking = self.max_links(l_n);
"""), (H, "    pub fn get_point_indexation(&self) ->", """    /// how many links a point may have at a layer
    fn max_links(&self, layer: usize) -> usize {
        if layer > 0 {
            self.max_nb_connection
        } else {
            2 * self.max_nb_connection
        }
    }

    pub fn get_point_indexation(&self) ->""")])
B["is_block"] = (["P07", "P19"], [(H, """        let mut enter_point_copy = None;
        let mut max_level_observed = 0;
        // entry point has been set in
        {
            // I open a read lock on an option
            if let Some(arc_point) = self.layer_indexed_points.entry_point.read().as_ref() {
                enter_point_copy = Some(Arc::clone(arc_point));
                max_level_observed = enter_point_copy.as_ref().unwrap().p_id.0;
            }
        }
""", """        // entry point has been set in
        let mut enter_point_copy = self.layer_indexed_points.entry_point.read().clone();
        let mut max_level_observed = match enter_point_copy.as_ref() {
            Some(arc_point) => arc_point.p_id.0,
            None => 0,
        };
""")])
B["ru_any"] = (["P05", "P04", "P19"], [(H, """                    let already = q_point_neighbours[l_n]
                        .iter()
                        .position(|old| old.point_ref.p_id == new_point.p_id);
                    if already.is_some() {
""", """                    let already = q_point_neighbours[l_n]
                        .iter()
                        .any(|old| old.point_ref.p_id == new_point.p_id);
                    if already {
""")])
B["ru_skip"] = (["P05", "P19"], [(H, """                if new_point.p_id != q.point_ref.p_id {
                    // as new point""", """                let same = new_point.p_id == q.point_ref.p_id;
                if !same {
                    // as new point""")])
B["ce_bool"] = (["P07", "P19"], [(H, """        match entry_point_ref.as_ref() {
            Some(arc_point) => {
                if new_point.p_id.0 > arc_point.p_id.0 {
                    debug!("Hnsw  , inserting  entry point {:?} ", new_point.p_id);
                    debug!(
                        "PointIndexation insert setting max level from {:?} to {:?}",
                        arc_point.p_id.0, new_point.p_id.0
                    );
                    *entry_point_ref = Some(Arc::clone(new_point));
                }
            }
            None => {
                trace!("initializing entry point");
                debug!("Hnsw  , inserting  entry point {:?} ", new_point.p_id);
                *entry_point_ref = Some(Arc::clone(new_point));
            }
        }
""", """        let higher = match entry_point_ref.as_ref() {
            Some(arc_point) => new_point.p_id.0 > arc_point.p_id.0,
            None => true,
        };
        if higher {
            debug!("Hnsw  , inserting  entry point {:?} ", new_point.p_id);
            *entry_point_ref = Some(Arc::clone(new_point));
        }
""")])
B["gp_rank"] = (["P06", "P16"], [(H, """            let mut p_id = PointId(level as u8, -1);
            p_id.1 = points_by_layer_ref[p_id.0 as usize].len() as i32;
            // make a Point and then an Arc<Point>
            let point = Point::new(data.to_vec(), origin_id, p_id);
            new_point = Arc::new(point);
""", """            let layer = &mut points_by_layer_ref[level];
            let p_id = PointId(level as u8, layer.len() as i32);
            new_point = Arc::new(Point::new(data.to_vec(), origin_id, p_id));
"""), (H, "            points_by_layer_ref[p_id.0 as usize].push(Arc::clone(&new_point));\n", "            layer.push(Arc::clone(&new_point));\n")])
B["sf_while"] = (["P01", "P03"], [(H, """        let mut l = 0u8;
        let layer_to_search = loop {
            if self.get_point_indexation().get_layer_nb_point(l as usize) > 0 {
                break l;
            }
            l = l + 1;
        };
""", """        let mut layer_to_search = 0u8;
        while self
            .get_point_indexation()
            .get_layer_nb_point(layer_to_search as usize)
            == 0
        {
            layer_to_search += 1;
        }
""")])
B["sf_for"] = (["P01", "P02"], [(H, """        let last = knbn.min(ef).min(neighbours.len());
        let knn_neighbours: Vec<Neighbour> = neighbours[0..last]
            .iter()
            .map(|p| {
                Neighbour::new(
                    p.as_ref().point_ref.origin_id,
                    p.as_ref().dist_to_ref,
                    p.as_ref().point_ref.p_id,
                )
            })
            .collect();

        knn_neighbours
    } // end of search_filter
""", """        let last = knbn.min(ef).min(neighbours.len());
        let mut knn_neighbours = Vec::<Neighbour>::with_capacity(last);
        for p in &neighbours[0..last] {
            knn_neighbours.push(Neighbour::new(
                p.point_ref.origin_id,
                p.dist_to_ref,
                p.point_ref.p_id,
            ));
        }
        knn_neighbours
    } // end of search_filter
""")])
B["sf_question"] = (["P01", "P02"], [(H, """        let entry_point;
        {
            // a lock on an option an a Arc<Point>
            let entry_point_opt_ref = self.layer_indexed_points.entry_point.read();
            if entry_point_opt_ref.is_none() {
                return Vec::<Neighbour>::new();
            } else {
                entry_point = Arc::clone((*entry_point_opt_ref).as_ref().unwrap());
            }
        }
""", """        let entry_point = match self.layer_indexed_points.entry_point.read().as_ref() {
            Some(ep) => Arc::clone(ep),
            None => return Vec::<Neighbour>::new(),
        };
""")])
B["sf_pivot"] = (["P01"], [(H, """            let mut has_changed = false;
            // search in stored neighbours
            {
""", """            // search in stored neighbours
            new_pivot = None;
            {
"""), (H, "                        has_changed = true;\n", ""), (H, """            if has_changed {
                pivot = Arc::clone(new_pivot.as_ref().unwrap());
            }
""", """            if let Some(p) = new_pivot.as_ref() {
                pivot = Arc::clone(p);
            }
""")])
B["nb_iter"] = (["P15", "P10"], [(H, """        for i in 0..nb_layer {
            let mut neighbours = Vec::<Neighbour>::new();
            let nb_ngbh = ref_neighbours[i].len();
            if nb_ngbh > 0usize {
                neighbours.reserve(nb_ngbh);
                for pointwo in &ref_neighbours[i] {
                    neighbours.push(Neighbour::new(
                        pointwo.point_ref.get_origin_id(),
                        pointwo.dist_to_ref,
                        pointwo.point_ref.get_point_id(),
                    ));
                }
            }
            neighborhood.push(neighbours);
        }
""", """        for layer in ref_neighbours.iter() {
            let mut neighbours = Vec::<Neighbour>::with_capacity(layer.len());
            for pointwo in layer {
                neighbours.push(Neighbour::new(
                    pointwo.point_ref.get_origin_id(),
                    pointwo.dist_to_ref,
                    pointwo.point_ref.get_point_id(),
                ));
            }
            neighborhood.push(neighbours);
        }
""")])
B["fl_extend"] = (["P15"], [(FL, """        for neighbour in layer {
            flat_neighbours.push(neighbour);
        }
""", """        flat_neighbours.extend(layer);
""")])
B["it_merge"] = (["P08", "P15", "P19"], [(H, """            if (self.layer as u8) <= entry_point_level {
                let slot = self.slot_in_layer as usize;
                self.slot_in_layer += 1;
                Some(points_by_layer[self.layer as usize][slot].clone())
            } else {
                None
            }
""", """            if (self.layer as u8) > entry_point_level {
                return None;
            }
            let slot = self.slot_in_layer as usize;
            self.slot_in_layer += 1;
            Some(points_by_layer[self.layer as usize][slot].clone())
""")])
B["gen_let"] = (["P09", "P19"], [(H, """        let mut ulevel = level.floor() as usize;
        // we redispatch possibly sampled level  >= maxlevel to required range
        if ulevel >= self.maxlevel {
            // This occurs with very low probability. Cf commentary above.
            ulevel = protected_rng.sample(Uniform::<usize>::new(0, self.maxlevel));
        }
        ulevel
""", """        let ulevel = level.floor() as usize;
        if ulevel < self.maxlevel {
            return ulevel;
        }
        // we redispatch possibly sampled level  >= maxlevel to required range
        // This occurs with very low probability. Cf commentary above.
        protected_rng.sample(Uniform::<usize>::new(0, self.maxlevel))
""")])
B["drop_for"] = (["P20", "P19"], [(H, """            let nb_layer = neighbours.len();
            for l in 0..nb_layer {
                neighbours[l].clear();
            }
            neighbours.clear();
""", """            for list in neighbours.iter_mut() {
                list.clear();
            }
            neighbours.clear();
""")])
B["drop_for2"] = (["P20"], [(H, """            let nb_layer = neighbours.len();
            for l in 0..nb_layer {
                neighbours[l].clear();
            }
            neighbours.clear();
""", """            neighbours.clear();
""")])
B["ps_vec"] = (["P16"], [(H, """            let answer_i = req_hash.get_key_value(&i).unwrap().1;
            answers.push((req_res[*answer_i].1).clone());
""", """            let answer_i = *req_hash.get(&i).unwrap();
            answers.push(req_res[answer_i].1.clone());
""")])
B["ps_sort"] = (["P16"], [(H, """        let req_res: Vec<(usize, Vec<Neighbour>)> = receiver.iter().collect();
        // now sort to respect the key order of input
        let mut answers = Vec::<Vec<Neighbour>>::with_capacity(datas.len());
        // get a map from request id to rank
        let mut req_hash = HashMap::<usize, usize>::new();
        for (i, elt) in req_res.iter().enumerate() {
            // the response of request req_res[i].0 is at rank i
            req_hash.insert(elt.0, i);
        }
        for i in 0..datas.len() {
            let answer_i = req_hash.get_key_value(&i).unwrap().1;
            answers.push((req_res[*answer_i].1).clone());
        }
        answers
""", """        let mut req_res: Vec<(usize, Vec<Neighbour>)> = receiver.iter().collect();
        // now sort to respect the key order of input
        req_res.sort_by_key(|r| r.0);
        req_res.into_iter().map(|r| r.1).collect()
""")])
B["dp_for"] = (["P10", "P11", "P12", "P19"], [(IO, """            for j in 0..layers[i].len() {
                assert_eq!(layers[i][j].get_point_id(), PointId(i as u8, j as i32));
                dump_point(&layers[i][j], mode, graphout, dataout)?;
            }
""", """            for (j, point) in layers[i].iter().enumerate() {
                assert_eq!(point.get_point_id(), PointId(i as u8, j as i32));
                dump_point(point, mode, graphout, dataout)?;
            }
""")])
B["dp_order"] = (["P10", "P11"], [(IO, """        for n in neighbours_at_l {
            // dump d_id : uszie , distance : f32, layer : u8, rank in layer : i32
            graphout.write_all(&n.d_id.to_ne_bytes())?;
            if mode == DumpMode::Full {
                graphout.write_all(&n.p_id.0.to_ne_bytes())?;
                graphout.write_all(&n.p_id.1.to_ne_bytes())?;
            }
            graphout.write_all(&n.distance.to_ne_bytes())?;
""", """        for n in neighbours_at_l.iter() {
            let PointId(layer, rank) = n.p_id;
            // dump d_id : uszie , distance : f32, layer : u8, rank in layer : i32
            graphout.write_all(&n.d_id.to_ne_bytes())?;
            if mode == DumpMode::Full {
                graphout.write_all(&layer.to_ne_bytes())?;
                graphout.write_all(&rank.to_ne_bytes())?;
            }
            graphout.write_all(&n.distance.to_ne_bytes())?;
""")])
B["lg_helper"] = (["P10", "P13"], [(IO, """    let mut it_slice = [0u8; std::mem::size_of::<u32>()];
    graph_in.read_exact(&mut it_slice).unwrap();
    let magic = u32::from_ne_bytes(it_slice);
    if magic != MAGICPOINT {
""", """    let magic = read_u32(graph_in);
    if magic != MAGICPOINT {
"""), (IO, "fn load_point_graph(graph_in: &mut dyn Read,", """fn read_u32(graph_in: &mut dyn Read) -> u32 {
    let mut it_slice = [0u8; std::mem::size_of::<u32>()];
    graph_in.read_exact(&mut it_slice).unwrap();
    u32::from_ne_bytes(it_slice)
}

fn load_point_graph(graph_in: &mut dyn Read,""")])
B["lg_struct"] = (["P10", "P13"], [(IO, "        let mut neighbour: Neighbour = Default::default();\n        // read nb_neighbour", "        // read nb_neighbour"), (IO, """        for _j in 0..nb_neighbours {
            let mut it_slice = [0u8; std::mem::size_of::<DataId>()];
""", """        for _j in 0..nb_neighbours {
            let mut neighbour: Neighbour = Default::default();
            let mut it_slice = [0u8; std::mem::size_of::<DataId>()];
""")])

def sh(c, **k):
    return subprocess.run(c, shell=True, capture_output=True, text=True, **k)

if __name__ == "__main__":
    assert not sh("git -C /repo status --porcelain").stdout
    for n in sys.argv[1:] or list(B):
        props, edits = B[n]
        try:
            for f, o, w in edits:
                p = "/repo/" + f
                s = open(p).read()
                assert o in s, (n, o)
                i = s.rindex(o) if n.startswith(("sf_", "dp_")) else s.index(o)
                open(p, "w").write(s[:i] + w + s[i + len(o):])
            b = sh("cd /repo && cargo build --offline --lib 2>&1")
            if b.returncode:
                print(n, "DOES NOT BUILD", b.stdout[-600:])
                continue
            for p in props:
                t = time.time()
                r = sh("python3 %s/check.py %s quick" % (V, p), env=dict(os.environ, VERIF_SEED="1"))
                v = [l for l in r.stdout.splitlines() if l.startswith(("VIOLATION", "unit"))]
                f = [l.strip() for l in r.stdout.splitlines() if "failed obligation in" in l]
                print(n, p, "QUIET" if r.returncode == 0 else "ALARM", "%.0f s" % (time.time() - t), "; ".join(x[:140] for x in v + f[:3]), r.stderr[-200:], flush=True)
        finally:
            sh("git -C /repo checkout -q -- .")
