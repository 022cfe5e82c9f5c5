"""What the crate's functions change and what they depend on, as a program Verus checks (property P22).

The source is the compiler's own MIR of /repo, read as for P19 (locks.py). Kept of each function: the calls it may make (crate
functions, closures, trait implementations that library code may call back, drop glue), and two kinds of events.
 change: a lock of the index is taken for writing, an atomic or cell kept in a struct of the crate is changed, memory is written through a raw pointer;
 chance: a random number is drawn, the time, the environment or the thread is asked for, a hash map or set is gone through in its own order.
Values and branches are dropped: any call and any event of a function may happen, in any order, any number of times."""
import hashlib
import os
import re
from locks import Locks, bare
from rust import ExtractError

WRITES = re.compile(r"^(write|lock|upgradable_read|write_arc|lock_arc|try_write|try_lock|try_write_for|try_lock_for)$")
CHANCE = [
    ("a random number", re.compile(r"\brand(_\w+)?::|\bRngCore\b|\bRng\b|\bthread_rng\b|\bfastrand\b|\bRandomState::new|getrandom")),
    ("the time", re.compile(r"\b(SystemTime|Instant|ProcessTime)::now\b")),
    ("the thread or the environment", re.compile(r"\bthread::current\b|ThreadId|\benv::var|current_thread_index|process::id\b")),
    ("a hash table in its own order", re.compile(r"\bHash(Map|Set)(::)?<.*>::(iter|iter_mut|keys|values|values_mut|into_keys|into_values|drain|retain|extract_if)\b|<&?('\w+ )?(mut )?[\w:]*Hash(Map|Set)<.*> as (\w+::)*IntoIterator>")),
]
ATOMIC = re.compile(r"\bAtomic\w*(?:::<[^>]*>)?::(store|swap|fetch_\w+|compare_exchange\w*|compare_and_swap)\b")
CELL = re.compile(r"\b(RefCell|Cell|OnceCell|OnceLock|UnsafeCell|LazyLock)::<.*>::(borrow_mut|try_borrow_mut|set|replace|replace_with|take|swap|update|get_or_init|get_or_try_init|get)\b")
RAW = re.compile(r"\bptr::(write\w*|copy|copy_nonoverlapping|swap\w*|replace)\b|\bmut_ptr::<impl|\bRwLock::<.*>::data_ptr|\bfrom_raw_parts_mut\b|make_mut_unchecked|get_mut_unchecked")
# what a user reads an index with: (type or trait it belongs to, name); searches are to give the same answer each time
SEARCH = [("Hnsw", "search_general"), ("Hnsw", "parallel_search"), ("Hnsw", "search_neighbours"), ("Hnsw", "parallel_search_neighbours"), ("Hnsw", "search"), ("Hnsw", "search_filter"), ("Hnsw", "search_possible_filter"), ("Hnsw", "search_layer")]
READ = SEARCH + [("Hnsw", x) for x in ("get_ef_construction", "get_max_level", "get_max_level_observed", "get_max_nb_connection", "get_nb_point", "get_distance_name", "get_distance", "get_point_indexation", "get_point_data", "get_data_dimension", "file_dump", "flat_neighborhood")] + \
    [("PointIndexation", x) for x in ("get_max_level_observed", "get_level_scale", "get_data_dimension", "get_nb_point", "get_layer_nb_point", "get_point_data", "get_point", "get_layer_iterator", "into_iter", "dump", "debug_dump")] + \
    [("Point", x) for x in ("get_v", "get_point_id", "get_origin_id", "get_neighborhood_id", "dump", "debug_dump")] + \
    [("IterPoint", "next"), ("IterPoint", "new"), ("IterPointLayer", "next"), ("IterPointLayer", "new"), ("FlatNeighborhood", "from"), ("FlatNeighborhood", "get_neighbours"), ("FlatPoint", "get_neighbours")] + \
    [("Hnsw", "dump"), ("DataMap", "get_data"), ("DataMap", "get_dataid_iter")]


class Reads(Locks):
    def fields(self):
        """the types of the shared cells kept in structs and statics of the crate"""
        out = set()
        for root, _, fs in os.walk(os.path.join(self.repo, "src")):
            for x in sorted(fs):
                if not x.endswith(".rs"):
                    continue
                src = re.sub(r"//[^\n]*", "", open(os.path.join(root, x), encoding="utf-8").read())
                bodies = []
                for m in re.finditer(r"\b(?:struct|enum)\s+(\w+)[^{;(]*[{(]", src):
                    j, d = m.end(), 1
                    while d and j < len(src):
                        d += {"{": 1, "(": 1, "}": -1, ")": -1}.get(src[j], 0)
                        j += 1
                    bodies.append(src[m.end():j])
                bodies += re.findall(r"\bstatic\s+(?:ref\s+|mut\s+)?\w+\s*:([^=;]*)[=;]", src)
                for body in bodies:
                    for k in re.finditer(r"\b(RwLock|Mutex|FairMutex|ReentrantMutex|Atomic\w+|RefCell|Cell|OnceCell|OnceLock|UnsafeCell)\b\s*(<)?", body):
                        e = k.end()
                        if k.group(2):
                            d = 1
                            while d:
                                d += {"<": 1, ">": -1}.get(body[e], 0) if body[e - 1] != "-" else 0
                                e += 1
                        out.add(self.key(body[k.start():e]))
        return out

    @staticmethod
    def key(s):
        s = Locks.norm(re.sub(r"(?:\w+::)+(?=\w)", "", s.replace("::<", "<")))
        s = re.sub(r"\b[A-Z]\w?\b", "_", s)  # type parameters
        return re.sub(r"\s+", "", s).replace(",>", ">")

    def events(self, f, own):
        ev = []
        for b, (sets, moves, t) in f.ops.items():
            if t[0] == "acq":
                if WRITES.match(t[3]) and self.key(t[2]) in own:
                    ev.append(("change", "%s of %s" % (t[3], t[2])))
            elif t[0] == "call":
                path = t[2]
                if ATOMIC.search(path) and any(k.startswith("Atomic") for k in own):
                    ev.append(("change", path[:70]))
                elif CELL.search(path) and any(re.match("RefCell|Cell|OnceCell|OnceLock|UnsafeCell", k) for k in own):
                    ev.append(("change", path[:70]))
                elif RAW.search(path):
                    ev.append(("change", path[:70]))
                if not t[5]:
                    for what, rx in CHANCE:
                        if rx.search(path):
                            ev.append(("chance", "%s: %s" % (what, path[:70])))
                            break
            for s in f.blocks[b]:
                m = re.match(r"\(?\(?\*_(\d+)\)?.* = ", s)
                if m and b not in f.cleanup and f.types.get(int(m.group(1)), "").startswith("*mut"):
                    ev.append(("change", "through a pointer: " + s[:60]))
        out = []
        for e in ev:
            if e not in out:
                out.append(e)
        return out

    def build(self):
        self.load()
        own = self.fields()
        for f in self.F:
            self.scan(f)
            f.calls = []
            for b, o in f.ops.items():
                t = o[2]
                for g in (t[3] if t[0] in ("call", "drop") else []):
                    if g not in f.calls:
                        f.calls.append(g)
        for f in self.F:
            f.ev = self.events(f, own)
        for kind, attr in (("change", "ch"), ("chance", "rn")):
            for f in self.F:
                setattr(f, attr, any(k == kind for k, _ in f.ev))
            more = True
            while more:
                more = False
                for f in self.F:
                    if not getattr(f, attr) and any(getattr(g, attr) for g in f.calls):
                        setattr(f, attr, True)
                        more = True
        out, labels = [], []

        def emit(s, lab=None):
            for ln in s.split("\n"):
                out.append(ln)
                labels.append(lab)
        emit("#![allow(unused, non_snake_case)]\nuse vstd::prelude::*;\npub mod sp {\nuse vstd::prelude::*;\nverus! {")
        emit(open(os.path.join(self.verif, "units", "pre_reads.vrs")).read())
        emit("}\n}\npub mod code {\nuse vstd::prelude::*;\nuse super::sp::*;\nverus! {")
        names, used = {}, {}
        for f in self.F:
            nm = re.sub(r"\W+", "_", re.sub(r"<impl at [^>]*>", "_".join(f.self_ty or []) or "impl", f.name)).strip("_")
            used[nm] = used.get(nm, 0) + 1
            names[id(f)] = nm if used[nm] == 1 else "%s__%d" % (nm, used[nm])
        roots = 0
        for f in self.F:
            lab = self.label(f)
            last = bare(f.name)[-1] if bare(f.name) else f.name
            who = set(f.self_ty or [])
            free = not who and "{closure" not in f.name
            srch = any(t in who and n == last for t, n in SEARCH) and "{closure" not in f.name or free and re.match(r"(search_neighbours|parallel_search_neighbours)_\w+$", last)
            read = srch or any(t in who and n == last for t, n in READ) and "{closure" not in f.name or free and re.match(r"(file_dump|get_data)_\w+$|flatten_point$|dump_point$", last)
            roots += bool(read)
            first = len(labels)
            req = []
            if f.ch and not read:
                req.append("old(w).may_change()")
            if f.rn and not srch:
                req.append("old(w).may_chance()")
            L = ["// %s%s" % (f.name, "  (reads)" if read else ""), "#[verifier::exec_allows_no_decreases_clause]",
                 "pub fn %s(Tracked(w): Tracked<&mut World>)" % names[id(f)]]
            if req:
                L.append("    requires " + ", ".join(req))
            L.append("    ensures *final(w) == *old(w)")
            L.append("{")
            if self.canary:
                L.append(" /*CANARY fn*/ assert(false);")
            L.append("    while vany()\n        invariant %s" % ", ".join(["*w == *old(w)"] + req))
            L.append("    {")
            for k, what in f.ev:
                L.append("        if vany() { v%s(Tracked(w)); } // %s" % (k, what))
            for g in f.calls:
                L.append("        if vany() { %s(Tracked(w)); }" % names[id(g)])
            L.append("    }\n}")
            emit("\n".join(L), lab)
            self.fns.append((lab, first, 0))
            self.new_baseline[lab] = [hashlib.sha256("\n".join(L).encode()).hexdigest()[:16]]
            old = self.baseline.get(lab)
            if old is not None and old != self.new_baseline[lab]:
                self.changed.append(lab)
        emit("}\n}")
        if roots < 25:
            raise ExtractError("only %d functions that read were found" % roots)
        self.labels = labels
        self.rules["functions read from MIR"] = len(self.F)
        self.rules["functions that only read, by contract"] = roots
        self.rules["events that change an index or depend on chance"] = sum(len(f.ev) for f in self.F)
        return "\n".join(out) + "\n"
