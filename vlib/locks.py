"""The locking of the crate as a program Verus checks (property P19).

The compiler's own MIR of /repo's current source is read: it names every lock taken, and every place where a guard is dropped,
moved or handed on. Of each function only this is kept: taking a lock, giving it back, calls of functions that may take locks
(with their real callees: crate functions, closures given to library functions, trait implementations library code may call, drop
glue), drop flags, returns, and the branches between them. Everything else is dropped: values, and which way a branch goes, become
unknown. Unwinding is left out (a guard is released when a panic passes it). Every function gets a contract: it may be called while
holding only locks that come before all it may take, and gives back what it takes."""
import glob
import hashlib
import os
import re
import shutil
import subprocess
import threading
from rust import ExtractError

BLOCKING = re.compile(r"(?:^|::|<)(RwLock|Mutex|ReentrantMutex|FairMutex)(?:::<(.*)>)?::(read|write|lock|upgradable_read|read_recursive|read_arc|write_arc|lock_arc|try_read|try_write|try_lock|try_read_for|try_write_for|try_lock_for)$")
JOINS = re.compile(r"\brayon|\bmpsc\b|JoinHandle|thread::scope|Condvar|Barrier|ParallelIterator|crossbeam|ScopedJoinHandle")


def emit_mir(repo, target):
    env = dict(os.environ)
    env.pop("RUSTFLAGS", None)
    cmd = ["cargo", "+nightly", "rustc", "--offline", "--lib", "--manifest-path", os.path.join(repo, "Cargo.toml"), "--target-dir", target, "--profile", "dev", "--", "-Zunpretty=mir", "-Zmir-opt-level=0", "-Ztrim-diagnostic-paths=false", "-Awarnings"]
    try:
        p = subprocess.run(cmd, capture_output=True, text=True, timeout=400, env=env)
        if p.returncode == 0 and "fn " not in p.stdout:
            # cargo took it for built already
            for d in glob.glob(os.path.join(target, "debug", ".fingerprint", "hnsw*")):
                shutil.rmtree(d, ignore_errors=True)
            p = subprocess.run(cmd, capture_output=True, text=True, timeout=400, env=env)
    except subprocess.TimeoutExpired:
        raise ExtractError("no MIR: the compiler did not end")
    if p.returncode != 0 or "fn " not in p.stdout:
        raise ExtractError("no MIR: " + p.stderr[-300:])
    return p.stdout


def split_top(s, sep=","):
    """splits at separators outside brackets"""
    out, d, cur = [], 0, ""
    i = 0
    while i < len(s):
        c = s[i]
        if c in "([{<":
            d += 1
        elif c in ")]}" or (c == ">" and s[i - 1] not in "-="):
            d -= 1
        if c == sep and d == 0:
            out.append(cur)
            cur = ""
        else:
            cur += c
        i += 1
    if cur.strip():
        out.append(cur)
    return [x.strip() for x in out]


def open_of(s, i):
    """the bracket that s[i], a closing one, closes"""
    d = 0
    while i >= 0:
        if s[i] in ")]}":
            d += 1
        elif s[i] in "([{":
            d -= 1
            if d == 0:
                return i
        i -= 1
    raise ExtractError("unbalanced MIR")


def bare(path):
    """a path without its generic arguments: top-level segments"""
    out, d, i = "", 0, 0
    while i < len(path):
        c = path[i]
        if c == "<":
            d += 1
        elif c == ">" and path[i - 1] not in "-=":
            d -= 1
        elif d == 0:
            out += c
        i += 1
    return [x for x in out.split("::") if x]


class Fn:
    pass


def parse(mir):
    fns = []
    cur = None
    blk = None
    for raw in mir.split("\n"):
        if cur is None:
            if raw.startswith("fn ") and raw.endswith("{"):
                s = re.sub(r'"(\\.|[^"\\])*"', '""', raw)
                f = Fn()
                # fn NAME(PARAMS) -> RET {
                i = 3
                d = 0
                while not (s[i] == "(" and d == 0):
                    if s[i] == "<":
                        d += 1
                    elif s[i] == ">" and s[i - 1] not in "-=":
                        d -= 1
                    i += 1
                f.name = s[3:i]
                j, d = i, 0
                while True:
                    if s[j] in "([{":
                        d += 1
                    elif s[j] in ")]}":
                        d -= 1
                        if d == 0:
                            break
                    j += 1
                f.types = {}
                f.params = []
                for p in split_top(s[i + 1:j]):
                    m = re.match(r"_(\d+): (.*)$", p, re.S)
                    if m:
                        f.types[int(m.group(1))] = m.group(2)
                        f.params.append(int(m.group(1)))
                m = re.match(r"\s*->\s*(.*?)\s*\{$", s[j + 1:])
                f.types[0] = m.group(1) if m else "()"
                f.blocks = {}
                f.cleanup = set()
                cur = f
                fns.append(f)
            elif re.match(r"(const|static|promoted)\b.*\{$", raw) or (raw.endswith("{") and not raw.startswith((" ", "fn "))):
                cur = False
            continue
        if raw == "}":
            cur = blk = None
            continue
        if cur is False:
            continue
        s = re.sub(r'"(\\.|[^"\\])*"', '""', raw.strip())
        m = re.match(r"let (?:mut )?_(\d+): (.*);$", s)
        if m and blk is None:
            cur.types[int(m.group(1))] = m.group(2)
            continue
        m = re.match(r"bb(\d+)( \(cleanup\))?: \{$", s)
        if m:
            blk = []
            cur.blocks[int(m.group(1))] = blk
            if m.group(2):
                cur.cleanup.add(int(m.group(1)))
            continue
        if s == "}":
            blk = None
            continue
        if blk is not None and s:
            # a statement may be printed on several lines
            if blk and not blk[-1].endswith(";"):
                blk[-1] += " " + s
            else:
                blk.append(s)
    return fns


def targets(term):
    """successors that are not unwinding"""
    m = re.search(r" -> \[(.*)\];$", term)
    if m:
        out = []
        for x in m.group(1).split(", "):
            k, _, v = x.partition(": ")
            if k.startswith("unwind"):
                continue
            if re.match(r"bb\d+$", v):
                out.append((k, int(v[2:])))
        return out
    m = re.search(r" -> bb(\d+);$", term)
    if m:
        return [("goto", int(m.group(1)))]
    return []


def base_local(place):
    m = re.match(r"[(*&]*_(\d+)", place)
    return int(m.group(1)) if m else None


GUARD = re.compile(r"\b\w*Guard\b")


def by_value(ty, names):
    return [n for n in names if re.search(r"(?<![\w:])(?:\w+::)*%s<" % n, re.sub(r"&('\w+ )?(mut )?(\w+::)*%s<" % n, "REF<", ty))]


class Locks:
    def __init__(self, name, defines=(), repo="/repo", verif="/verif", canary=False, baseline=None, mir=None):
        self.repo, self.verif, self.canary = repo, verif, canary
        self.baseline = baseline or {}
        self.rules, self.fns, self.labels = {}, [], []
        self.changed, self.renames, self.new_baseline, self.fn_hashes = [], {}, {}, {}
        self.mir = mir
        self.srccache = {}

    def header(self, name):
        """the text of the impl a function belongs to"""
        m = re.search(r"<impl at ([^:>]+):(\d+):", name)
        if not m:
            return None
        f = os.path.join(self.repo, m.group(1))
        if f not in self.srccache:
            self.srccache[f] = open(f, encoding="utf-8").read().split("\n")
        ls = self.srccache[f]
        t = ""
        for k in range(int(m.group(2)) - 1, min(int(m.group(2)) + 12, len(ls))):
            t += " " + ls[k].split("//")[0]
            if "{" in ls[k]:
                break
        return t.split("{")[0]

    CACHE = {}
    LOCK = threading.Lock()

    def load(self):
        if self.mir is None:
            key = "mir"
            with Locks.LOCK:
                if key not in Locks.CACHE:
                    Locks.CACHE[key] = emit_mir(self.repo, os.path.join(self.verif, "build", "mir"))
            self.mir = Locks.CACHE[key]
        self.F = parse(self.mir)
        if len(self.F) < 50:
            raise ExtractError("MIR of only %d functions" % len(self.F))
        self.modules = {re.split(r"::|<", f.name)[0] for f in self.F if "::" in f.name}
        self.byname = {}
        self.closures = {}
        self.types = set()
        for f in self.F:
            f.header = self.header(f.name)
            f.short = re.sub(r"<impl at [^>]*>", "impl", f.name)
            f.trait = None
            f.self_ty = None
            if f.header:
                h = re.sub(r"^\s*(unsafe\s+)?impl\b", "", f.header)
                if "impl" in f.header:
                    m = re.match(r"(.*?)\bfor\b(?!\s*<)(.*)$", re.sub(r"\bwhere\b.*", "", h), re.S)
                    if m:
                        f.trait = m.group(1)
                        h = m.group(2)
                    else:
                        if h.strip().startswith("<"):
                            d = 0
                            for i, c in enumerate(h):
                                if c == "<":
                                    d += 1
                                elif c == ">" and h[i - 1] not in "-=":
                                    d -= 1
                                    if d == 0:
                                        h = h[i + 1:]
                                        break
                    f.self_ty = re.findall(r"\b([A-Z]\w*)", h.split("<")[0]) or re.findall(r"\b([A-Z]\w*)", h)
                else:
                    f.self_ty, f.trait = None, "derive"
            last = bare(f.name)[-1] if bare(f.name) else f.name
            m = re.search(r"\{closure@([^}]*)\}", f.types.get(1, "")) if "{closure#" in last else None
            if m:
                self.closures[m.group(1)] = f
            elif "{closure#" in last:
                raise ExtractError("closure without a place: " + f.name)
            else:
                self.byname.setdefault(last, []).append(f)
            for t in (f.self_ty or []):
                self.types.add(t)
        self.crate_types = set(re.findall(r"\b(?:%s)::(?:\w+::)*([A-Z]\w*)" % "|".join(self.modules), self.mir))
        self.drop_types = set()
        for f in self.F:
            if f.trait and re.search(r"\bDrop\b", f.trait):
                self.drop_types |= set(f.self_ty or [])
        self.drop_fns = [f for f in self.F if f.trait and re.search(r"\bDrop\b", f.trait) and bare(f.name)[-1] == "drop"]
        # types that own, by a field, one that has its own drop
        self.owners = self.owning()
        self.gstructs = self.guard_structs()
        self.kept = {n: set() for n in self.gstructs}

    def owning(self):
        own = {t: {t} for t in self.drop_types}
        defs = {}
        for root, _, fs in os.walk(os.path.join(self.repo, "src")):
            for x in fs:
                if x.endswith(".rs"):
                    src = re.sub(r"//[^\n]*", "", open(os.path.join(root, x), encoding="utf-8").read())
                    for m in re.finditer(r"\b(?:struct|enum)\s+(\w+)[^{;(]*[{(]", src):
                        i = m.end() - 1
                        d = 0
                        for j in range(i, len(src)):
                            if src[j] in "{(":
                                d += 1
                            elif src[j] in "})":
                                d -= 1
                                if d == 0:
                                    break
                        defs[m.group(1)] = src[i:j]
        res = {}
        done = False
        for t in self.drop_types:
            res.setdefault(t, set()).add(t)
        while not done:
            done = True
            for n, body in defs.items():
                for t in list(res):
                    if re.search(r"(?<![&\w])(?:\w+::)*%s\b" % t, re.sub(r"&\s*('\w+\s+)?(mut\s+)?(\w+::)*%s\b" % t, "REF", body)):
                        new = res[t] - res.get(n, set())
                        if new:
                            res.setdefault(n, set()).update(new)
                            done = False
        return res

    def guard_structs(self):
        """structs of the crate that keep a guard in a field"""
        names = set()
        for root, _, fs in os.walk(os.path.join(self.repo, "src")):
            for x in fs:
                if x.endswith(".rs"):
                    src = re.sub(r"//[^\n]*", "", open(os.path.join(root, x), encoding="utf-8").read())
                    for m in re.finditer(r"\b(?:struct|enum)\s+(\w+)[^{;(]*[{(]", src):
                        j = m.end()
                        d = 1
                        while d and j < len(src):
                            d += {"{": 1, "(": 1, "}": -1, ")": -1}.get(src[j], 0)
                            j += 1
                        if re.search(r"\b\w*Guard\b", src[m.end():j]):
                            names.add(m.group(1))
        return names

    def keeps(self, ty):
        """may a value of this type keep a lock taken"""
        return bool(GUARD.search(ty)) or any(re.search(r"\b%s\b" % n, ty) for n in self.gstructs)

    def struct_of(self, ty):
        """(name, by reference) of a guard-keeping struct of the crate"""
        m = re.match(r"(&\s*(?:'\w+ )?(?:mut )?)?(?:\w+::)*(\w+)\b", ty)
        return (m.group(2), bool(m.group(1))) if m and m.group(2) in self.gstructs else None

    def drops_of(self, ty):
        out = []
        for n in by_value(ty, list(self.owners)):
            for t in self.owners[n]:
                out += [f for f in self.drop_fns if t in (f.self_ty or [])]
        return out

    def mentioned(self, text):
        """what library code called with these types may call back: closures, and implementations of library traits"""
        out = []
        for m in re.finditer(r"\{closure@([^}]*)\}", text):
            if m.group(1) in self.closures:
                out.append(self.closures[m.group(1)])
        tys = set(re.findall(r"\b(?:%s)::(?:\w+::)*([A-Z]\w*)" % "|".join(self.modules), text))
        if tys:
            for f in self.F:
                if not f.trait or f.trait == "derive" or re.search(r"\bDrop\b", f.trait):
                    continue
                tr = re.findall(r"(\w+)\s*(?:<.*>)?\s*$", f.trait.strip())
                tr = tr[0] if tr else ""
                if tr in self.crate_types or tr in ("AnnT", "HnswIoT", "FilterT"):
                    continue
                ok = True
                if tr in ("Iterator", "DoubleEndedIterator", "ExactSizeIterator", "IntoIterator"):
                    ok = "ter" in text
                elif tr in ("From", "Into", "TryFrom"):
                    ok = re.search(r"From|Into|into|from", text)
                elif tr in ("Debug", "Display"):
                    ok = re.search(r"fmt|Argument|to_string|ToString|Display|Debug", text)
                if ok and tys & set(f.self_ty or []):
                    out.append(f)
        return out

    def callees(self, fn, path, argtypes):
        """(crate functions that this call may run, is the callee itself in the crate)"""
        path = path.strip()
        segs = bare(path)
        text = path + " " + " ".join(argtypes)
        if path.startswith("<") and not path.startswith("<impl"):
            # <Self as Trait>::method
            d = 0
            for i, c in enumerate(path):
                if c == "<":
                    d += 1
                elif c == ">" and path[i - 1] not in "-=":
                    d -= 1
                    if d == 0:
                        break
            inner, method = path[1:i], segs[-1] if segs else ""
            selfty, _, trait = inner.rpartition(" as ")
            if not selfty:
                selfty = inner
            head = selfty.strip()
            cands = [f for f in self.byname.get(method, []) if f.trait or f.header is None]
            m = re.match(r"(?:&('\w+ )?(mut )?)*(?:(\w+)::)?(?:\w+::)*([A-Za-z_]\w*)", head)
            if m and m.group(3) in self.modules and m.group(4) in self.crate_types:
                own = [f for f in cands if f.self_ty is None or m.group(4) in f.self_ty]
                if own:
                    return own, True
            elif re.match(r"(&('\w+ )?(mut )?)*([A-Z]\w{0,2}$|dyn |impl |Box<dyn)", head):
                return cands + self.mentioned(text), False
            return self.mentioned(text), False
        if segs and (segs[0] in self.modules or re.match(r"<impl", path)):
            name = segs[-1]
            cands = self.byname.get(name, [])
            own = segs[-2] if len(segs) > 1 else None
            if own and own[:1].isupper():
                cands = [f for f in cands if (own in f.self_ty if f.self_ty else re.search(r"\b%s\b" % own, " ".join(f.types[x] for x in [0] + f.params)) or (f.trait is None and own in f.name))]
            elif len(segs) == 1 or own in self.modules:
                f2 = [f for f in cands if f.header is None]
                cands = f2 or cands
            if not cands and name[:1].islower():
                return self.mentioned(text), False
            # a crate function may also run what it is given
            return cands + [f for f in self.mentioned(text) if "{closure#" in f.name], True
        if len(segs) == 1 and segs[0] in self.byname:
            return [f for f in self.byname[segs[0]] if f.header is None], True
        return self.mentioned(text), False

    # ---- one function
    def scan(self, f):
        """f.ops: block -> (flag assignments, moves, terminator)"""
        f.ops = {}
        f.acq0 = set()
        f.calls = set()
        cand = set()
        for b, ss in f.blocks.items():
            for s in ss:
                m = re.match(r"_(\d+) = (.*);$", s)
                if m and f.types.get(int(m.group(1))) == "bool":
                    cand.add(int(m.group(1)))
        for b, ss in f.blocks.items():
            for s in ss:
                m = re.match(r"_(\d+) = (.*);$", s)
                if m and int(m.group(1)) in cand and m.group(2) not in ("const true", "const false"):
                    cand.discard(int(m.group(1)))
                for x in re.findall(r"&(?:mut |raw \w+ )?_(\d+)\b", s):
                    cand.discard(int(x))
        f.flags = cand - set(f.params)
        for b, ss in f.blocks.items():
            if b in f.cleanup or not ss:
                continue
            sets, moves = [], []
            for s in ss[:-1]:
                m = re.match(r"_(\d+) = const (true|false);$", s)
                if m and int(m.group(1)) in f.flags:
                    sets.append((int(m.group(1)), m.group(2) == "true"))
                    continue
                m = re.match(r"(.*?) = (.*);$", s)
                if m and "move " in m.group(2):
                    srcs = [base_local(x) for x in re.findall(r"move (\(*_\d+|\(\(_\d+|\(_\d+)", m.group(2))]
                    moves.append((m.group(1), srcs))
            f.ops[b] = (sets, moves, self.terminator(f, ss[-1]))

    def terminator(self, f, t):
        tg = targets(t)
        succ = [x for _, x in tg if x not in f.cleanup]
        if t.startswith("return"):
            return ("return",)
        m = re.match(r"switchInt\((?:copy|move) _(\d+)\)", t)
        if m:
            if int(m.group(1)) in f.flags:
                z = [x for k, x in tg if k == "0"]
                o = [x for k, x in tg if k != "0"]
                if len(z) == 1 and len(o) == 1:
                    return ("flag", int(m.group(1)), z[0], o[0])
            return ("goto", succ)
        m = re.match(r"drop\((.*)\) -> ", t)
        if m:
            l = base_local(m.group(1))
            whole = re.match(r"_\d+$", m.group(1)) is not None
            return ("drop", l, whole, self.drops_of(f.types.get(l, "")) if whole else self.drops_of(m.group(1).rpartition(": ")[2]), succ)
        if re.match(r"(goto|switchInt|assert|falseEdge|falseUnwind|unreachable|resume|abort|terminate|StorageDead|yield|coroutine_drop)\b", t):
            return ("goto", succ)
        # DEST = CALLEE(ARGS) -> ...
        body = re.split(r" -> (?=\[return|unwind|bb\d)", t)[0]
        m = re.match(r"(\S+|\(.*?\)) = (.*)$", body)
        if not m or not body.endswith(")"):
            if t.endswith(";") and not tg:
                return ("goto", [])
            raise ExtractError("MIR terminator of unknown form in %s: %s" % (f.name, t[:120]))
        dest, call = m.group(1), m.group(2)
        o = open_of(call, len(call) - 1)
        path, args = call[:o], split_top(call[o + 1:-1])
        at = []
        margs = []
        for a in args:
            l = base_local(a.split(" ", 1)[1]) if " " in a and a.split(" ", 1)[0] in ("move", "copy") else None
            if l is not None:
                at.append(f.types.get(l, ""))
                if a.startswith("move "):
                    margs.append(l)
        d = base_local(dest)
        mb = BLOCKING.search(path)
        if mb:
            key = "%s<%s>" % (mb.group(1), self.norm(mb.group(2) or (at[0] if at else "?")))
            return ("acq", d, key, mb.group(3), succ)
        if re.search(r"Guard::<.*::upgrade$|Guard<.*>::unlocked|::bump$|unlocked_fair$|force_unlock|mem::forget::<[^>]*Guard|ManuallyDrop::<[^>]*Guard|Box::<[^>]*Guard[^>]*>::leak", path):
            raise ExtractError("a guard is used in a way this extraction does not follow: " + path[:100])
        if path.startswith(("move _", "copy _")):
            return ("call", d, path, self.mentioned(" ".join(at)), margs, False, False, succ)
        cs, own = self.callees(f, path, at + [f.types.get(d, "")])
        if re.match(r"(std|core)::mem::drop::<", path) or re.match(r"(std|core)::ptr::drop_in_place", path):
            cs = cs + self.drops_of(" ".join(at))
        joins = bool(JOINS.search(path + " " + " ".join(at))) and not own and not re.search(r"(::new|::clone|::len|par_iter\w*|into_par_iter|channel|::send|sync_channel)(::<.*>)?$", path)
        # library code also drops what it is given
        return ("call", d, path, cs, margs, own, joins, succ)

    @staticmethod
    def norm(s):
        s = re.sub(r"'\w+\b,? ?", "", s)
        s = re.sub(r"(?:\w+::)+", "", s)
        s = re.sub(r"\bRaw(RwLock|Mutex|FairMutex), ", "", s)
        return s.replace("<>", "")

    def analyse(self):
        for f in self.F:
            self.scan(f)
        # closures and callees: which locks may a function take
        for f in self.F:
            f.acq = set()
            f.ret = None
            for b, (sets, moves, t) in f.ops.items():
                if t[0] == "acq":
                    f.acq.add(t[2])
                elif t[0] == "call" and t[6] and not self.exclusive(f):
                    f.acq.add("JOIN")
        ch = True
        while ch:
            ch = False
            for f in self.F:
                for b, (sets, moves, t) in f.ops.items():
                    cs = t[3] if t[0] in ("call", "drop") else []
                    for g in cs:
                        if not g.acq <= f.acq:
                            f.acq |= g.acq
                            ch = True
        rel = [f for f in self.F if f.acq]
        # a function that hands out a guard
        for _ in range(8):
            before = ([f.ret for f in rel], {k: set(v) for k, v in self.kept.items()}, len(rel))
            for f in rel:
                self.states(f)
            rel = [f for f in self.F if f.acq or self.entry_carry(f)]
            if ([f.ret for f in rel], self.kept, len(rel)) == before:
                break
        self.rel = rel

    def entry_carry(self, f):
        """what a function holds from the start: the locks kept by a struct it is given"""
        c = {}
        for p in f.params:
            s = self.struct_of(f.types[p])
            if s and self.kept[s[0]]:
                c[-p if s[1] else p] = tuple(sorted(self.kept[s[0]]))
        return c

    def exclusive(self, f):
        """drop of an index: nobody else can be using its locks"""
        return bool(f.trait and re.search(r"\bDrop\b", f.trait) and bare(f.name)[-1] == "drop" and f.types.get(1, "").startswith("&mut"))

    def states(self, f):
        """explores the function: states (block, what each local holds, drop flags)"""
        f.inv = {}
        f.edges = set()
        f.retset = set()
        if any(GUARD.search(f.types[p]) and not f.types[p].startswith("&") for p in f.params):
            raise ExtractError("a function takes a guard by value: " + f.name)
        f.entry = self.entry_carry(f)
        todo = [(0, frozenset(f.entry.items()), frozenset())]
        seen = set(todo)
        while todo:
            b, carry, flags = todo.pop()
            f.inv.setdefault(b, set()).add((frozenset(c for _, cs in carry for c in cs), flags))
            if len(seen) > 4000:
                raise ExtractError("too many locking states in " + f.name)
            c = dict(carry)
            fl = dict(flags)
            sets, moves, t = f.ops.get(b, ([], [], ("goto", [])))
            for x, v in sets:
                fl[x] = v
            for dest, srcs in moves:
                got = ()
                for s in srcs:
                    got += c.pop(s, ())
                if got:
                    d = base_local(dest)
                    if dest.startswith("(*") or d is None:
                        raise ExtractError("a guard is stored away in " + f.name)
                    c[d] = c.get(d, ()) + got
                    st = self.struct_of(f.types.get(d, ""))
                    if st:
                        self.kept[st[0]] |= set(got)
            held = [x for cs in c.values() for x in cs]
            nxt = []
            if t[0] == "goto":
                nxt = t[1]
            elif t[0] == "flag":
                v = fl.get(t[1])
                nxt = [t[2]] if v is False else [t[3]] if v is True else [t[2], t[3]]
            elif t[0] == "drop":
                for g in t[3]:
                    for a in g.acq:
                        for h in held:
                            f.edges.add((h, a))
                if t[2] or not self.keeps(f.types.get(t[1], "")):
                    c.pop(t[1], None)
                elif t[1] in c:
                    c.pop(t[1])
                nxt = t[4]
            elif t[0] == "acq":
                for h in held:
                    f.edges.add((h, t[2]))
                c[t[1]] = c.get(t[1], ()) + (t[2],)
                nxt = t[4]
            elif t[0] == "call":
                _, d, path, cs, margs, own, joins, succ = t
                for g in cs:
                    given = {x for v in self.entry_carry(g).values() for x in v}
                    for a in g.acq:
                        for h in held:
                            if h not in given:
                                f.edges.add((h, a))
                got = ()
                for l in margs:
                    got += c.pop(l, ())
                if got and self.keeps(f.types.get(d, "")):
                    c[d] = c.get(d, ()) + got
                elif got and not re.search(r"mem::drop::<|drop_in_place", path) and (own or "closure@" in f.types.get(d, "") or re.search(r"(\w+)<", f.types.get(d, "")) and GUARD.search(path.split(">::")[-1])):
                    raise ExtractError("a guard is handed to %s in %s" % (path[:60], f.name))
                for g in cs:
                    if g.ret and own and set(g.ret) - set(got):
                        c[d] = c.get(d, ()) + tuple(sorted(g.ret))
                nxt = succ
            elif t[0] == "return":
                f.retset.add(tuple(sorted(x for k, cs in c.items() if k >= 0 for x in cs)))
            st = (frozenset((k, v) for k, v in c.items() if v), frozenset(fl.items()))
            for n in nxt:
                s2 = (n,) + st
                if s2 not in seen:
                    seen.add(s2)
                    todo.append(s2)
        rs = f.retset
        if len(rs) > 1:
            raise ExtractError("a function returns a guard only sometimes: " + f.name)
        r = next(iter(rs)) if rs else ()
        f.ret = r or None

    # ---- the text
    def order(self):
        classes = sorted({a for f in self.rel for a in f.acq if a != "JOIN"})
        edges = {(a, b) for f in self.rel for a, b in f.edges if a != b and "JOIN" not in (a, b)}
        out = []
        left = set(classes)
        while left:
            free = sorted(x for x in left if not any(b == x and a in left for a, b in edges))
            x = free[0] if free else sorted(left)[0]
            out.append(x)
            left.discard(x)
        self.rank = {x: i + 1 for i, x in enumerate(out)}
        self.rank["JOIN"] = 0

    def build(self):
        self.load()
        self.analyse()
        self.order()
        out = []
        labels = []

        def emit(s, lab=None):
            for ln in s.split("\n"):
                out.append(ln)
                labels.append(lab)
        emit("#![allow(unused, non_snake_case)]\nuse vstd::prelude::*;\npub mod sp {\nuse vstd::prelude::*;\nverus! {")
        emit(open(os.path.join(self.verif, "units", "pre_locks.vrs")).read())
        for c, k in sorted(self.rank.items(), key=lambda x: x[1]):
            emit("pub spec const L%d: int = %d; // %s" % (k, k, c if c != "JOIN" else "waiting for other threads"))
        emit("}\n}\npub mod lem {\nuse vstd::prelude::*;\nuse super::sp::*;\nverus! {")
        emit(open(os.path.join(self.verif, "units", "lem_locks.vrs")).read())
        emit("}\n}\npub mod code {\nuse vstd::prelude::*;\nuse super::sp::*;\nverus! {")
        self.ids = {id(f): "f%d" % i for i, f in enumerate(self.rel)}
        used = {}
        for f in self.rel:
            nm = re.sub(r"\W+", "_", re.sub(r"<impl at [^>]*>", "_".join(f.self_ty or []) or "impl", f.name)).strip("_")
            used[nm] = used.get(nm, 0) + 1
            if used[nm] > 1:
                nm += "__%d" % used[nm]
            self.ids[id(f)] = nm
        for f in self.rel:
            self.render(f, emit)
        emit("}\n}")
        self.labels = labels
        self.rules["functions read from MIR"] = len(self.F)
        self.rules["functions that take locks"] = len(self.rel)
        self.rules["lock acquisitions"] = sum(1 for f in self.rel for b, o in f.ops.items() if o[2][0] == "acq")
        self.rules["unwinding paths left out"] = sum(len(f.cleanup) for f in self.rel)
        return "\n".join(out) + "\n"

    def label(self, f):
        m = re.search(r"<impl at ([^:>]+):", f.name)
        file = m.group(1) if m else "src/%s.rs" % f.name.split("::")[0]
        rest = re.sub(r"<impl at [^>]*>::", "", f.name).split("::", 1)[-1]
        ty = "::".join(f.self_ty or [])
        if f.trait and f.trait != "derive":
            ty = f.trait.strip().split(">", 1)[-1].strip() + " for " + ty if f.trait.strip().startswith("<") else f.trait.strip() + " for " + ty
        return "%s::%s%s" % (file, ty + "::" if ty else "", rest)

    def setexpr(self, held):
        s = "h0"
        for c in sorted(held, key=lambda x: self.rank[x]):
            s += ".insert(L%d)" % self.rank[c]
        return s

    def render(self, f, emit):
        lab = self.label(f)
        first = len(self.labels)
        ops = f.ops

        def effect(b):
            sets, moves, t = ops.get(b, ([], [], ("goto", [])))
            if sets and any(self.flag_used(f, x) for x, _ in sets):
                return True
            if t[0] in ("acq", "return"):
                return True
            if t[0] == "flag":
                return True
            if t[0] == "drop":
                return any(t[1] in c for c in self.carriers(f)) or any(g.acq for g in t[3])
            if t[0] == "call":
                return t[6] and not self.exclusive(f) or any(g.acq for g in t[3]) or any(self.releases(f, b))
            return False
        eff = {b for b in f.inv if effect(b)}

        def closure(b):
            seen, todo, res = set(), [b], set()
            while todo:
                x = todo.pop()
                if x in seen:
                    continue
                seen.add(x)
                if x in eff:
                    res.add(x)
                    continue
                t = ops.get(x, ([], [], ("goto", [])))[2]
                todo += t[-1] if t[0] in ("goto", "drop", "call", "acq") else []
            return sorted(y for y in res if y in f.inv)
        start = closure(0)
        name = self.ids[id(f)]
        given = sorted({x for v in f.entry.values() for x in v}, key=lambda x: self.rank[x])
        lent = {x for k, v in f.entry.items() if k < 0 for x in v}
        top = max(self.rank.values()) + 1
        mn = min([self.rank[a] for a in f.acq] or [top])
        less = "".join(".remove(L%d)" % self.rank[x] for x in given)
        flags = sorted(x for x in f.flags if self.flag_used(f, x))
        ret = f.ret or ()
        L = []
        L.append("// %s" % f.name)
        L.append("#[verifier::exec_allows_no_decreases_clause]")
        L.append("pub fn %s(Tracked(h): Tracked<&mut Held>)" % name)
        L.append("    requires below(old(h)@%s, %d)%s  // may take: %s" % (less, mn, "".join(", old(h)@.contains(L%d)" % self.rank[x] for x in given), ", ".join(sorted(f.acq))))
        L.append("    ensures final(h)@ =~= %s" % self.setexpr(set(ret) | lent).replace("h0", "old(h)@" + less))
        L.append("{")
        if self.canary:
            L.append(" /*CANARY fn*/ assert(false);")
        L.append("    let ghost h0 = h@%s;" % less)
        if not start:
            L.append("    vnever();\n}")
            emit("\n".join(L), lab)
            self.fns.append((lab, first, 0))
            return
        for x in flags:
            L.append("    let mut d%d: bool = vany();" % x)

        def goto(bs, ind):
            r = []
            bs = sorted(set(bs))
            if not bs:
                return [ind + "vnever(); return;"]
            s = ind
            for b in bs[:-1]:
                s += "if vany() { pc = %d; } else " % b
            s += "{ pc = %d; }" % bs[-1]
            return [s]
        L.append("    let mut pc: u32;")
        L += goto(start, "    ")
        L.append("    loop")
        L.append("        invariant below(h0, %d), h0 == old(h)@%s, " % (mn, less))
        dis = []
        for b in sorted(eff & set(f.inv)):
            for held, fl in sorted(f.inv[b], key=lambda x: (sorted(x[0]), sorted(x[1]))):
                t = "pc == %d && h@ =~= %s" % (b, self.setexpr(held))
                for x, v in sorted(fl):
                    if x in flags:
                        t += " && %sd%d" % ("" if v else "!", x)
                if t not in dis:
                    dis.append(t)
        L.append("            " + "\n            || ".join("(%s)" % t for t in dis))
        L.append("    {")
        bl = sorted(eff & set(f.inv))
        for i, b in enumerate(bl):
            sets, moves, t = ops[b]
            L.append("        %s{" % (("if pc == %d " % b if i == 0 else "else if pc == %d " % b) if i < len(bl) - 1 else ("else " if i else "")))
            ind = "            "
            for x, v in sets:
                if x in flags:
                    L.append(ind + "d%d = %s;" % (x, "true" if v else "false"))
            if t[0] == "acq":
                L.append(ind + "vtake(Ghost(L%d), Tracked(h)); // %s of %s" % (self.rank[t[2]], t[3], t[2]))
                L += goto([y for n in t[4] for y in closure(n)], ind)
            elif t[0] == "drop":
                for g in self.uniq(t[3]):
                    L.append(ind + "if vany() { %s(Tracked(h)); }" % self.ids[id(g)])
                L += self.release(f, b, t[1:2], ind)
                L += goto([y for n in t[4] for y in closure(n)], ind)
            elif t[0] == "call":
                _, d, path, cs, margs, own, joins, succ = t
                if joins and not self.exclusive(f):
                    L.append(ind + "vwait(Tracked(h)); // %s" % path[:80])
                cs = self.uniq(cs)
                rets = {g.ret for g in cs}
                if own and any(rets) :
                    if len(cs) != 1:
                        raise ExtractError("several functions may hand out a guard: " + path[:80])
                    L.append(ind + "%s(Tracked(h)); // %s" % (self.ids[id(cs[0])], path[:80]))
                else:
                    for g in cs:
                        if self.callable(f, b, g):
                            L.append(ind + "if vany() { %s(Tracked(h)); } // %s" % (self.ids[id(g)], path[:80]))
                L += self.release(f, b, margs, ind)
                L += goto([y for n in succ for y in closure(n)], ind)
            elif t[0] == "flag":
                L.append(ind + "if d%d {" % t[1])
                L += goto(closure(t[3]), ind + "    ")
                L.append(ind + "} else {")
                L += goto(closure(t[2]), ind + "    ")
                L.append(ind + "}")
            elif t[0] == "return":
                L.append(ind + "return;")
            else:
                L += goto([y for n in t[-1] for y in closure(n)], ind)
            L.append("        }")
        L.append("    }")
        L.append("}")
        emit("\n".join(L), lab)
        self.fns.append((lab, first, 0))
        self.new_baseline[lab] = [hashlib.sha256("\n".join(L).encode()).hexdigest()[:16]]
        old = self.baseline.get(lab)
        if old is not None and old != self.new_baseline[lab]:
            self.changed.append(lab)

    def uniq(self, cs):
        out = []
        for g in cs:
            if (g.acq or g.ret) and g not in out:
                out.append(g)
        return out

    def callable(self, f, b, g):
        """are the locks kept by the struct that g works on held here"""
        need = {x for v in g.entry.values() for x in v}
        if not need:
            return True
        r = {need <= {x for v in dict(c).values() for x in v} for c in self.held_by(f, b)}
        if len(r) > 1:
            raise ExtractError("a guard-keeping struct is used in several states in " + f.name)
        return r == {True}

    def flag_used(self, f, x):
        return any(o[2][0] == "flag" and o[2][1] == x for o in f.ops.values())

    def carriers(self, f):
        return [{l for l, t in f.types.items()}]

    def held_by(self, f, b):
        """what each local holds when block b ends, in every state"""
        if not hasattr(f, "carry"):
            f.carry = {}
            todo = [(0, frozenset(f.entry.items()), frozenset())]
            seen = set(todo)
            while todo:
                x, carry, flags = todo.pop()
                c, fl = dict(carry), dict(flags)
                sets, moves, t = f.ops.get(x, ([], [], ("goto", [])))
                for q, v in sets:
                    fl[q] = v
                for dest, srcs in moves:
                    got = ()
                    for s in srcs:
                        got += c.pop(s, ())
                    if got:
                        c[base_local(dest)] = c.get(base_local(dest), ()) + got
                f.carry.setdefault(x, set()).add(frozenset((k, v) for k, v in c.items() if v))
                nxt = t[-1] if t[0] in ("goto", "drop", "call", "acq") else []
                if t[0] == "flag":
                    v = fl.get(t[1])
                    nxt = [t[2]] if v is False else [t[3]] if v is True else [t[2], t[3]]
                elif t[0] == "drop":
                    c.pop(t[1], None)
                elif t[0] == "acq":
                    c[t[1]] = c.get(t[1], ()) + (t[2],)
                elif t[0] == "call":
                    got = ()
                    for l in t[4]:
                        got += c.pop(l, ())
                    if got and self.keeps(f.types.get(t[1], "")):
                        c[t[1]] = c.get(t[1], ()) + got
                    for g in t[3]:
                        if g.ret and t[5] and set(g.ret) - set(got):
                            c[t[1]] = c.get(t[1], ()) + tuple(sorted(g.ret))
                st = (frozenset((k, v) for k, v in c.items() if v), frozenset(fl.items()))
                for n in nxt:
                    s2 = (n,) + st
                    if s2 not in seen:
                        seen.add(s2)
                        todo.append(s2)
        return f.carry.get(b, set())

    def releases(self, f, b):
        t = f.ops[b][2]
        ls = [t[1]] if t[0] == "drop" else t[4] if t[0] == "call" else []
        if t[0] == "call" and self.keeps(f.types.get(t[1], "")):
            return []
        return [1 for c in self.held_by(f, b) if any(dict(c).get(l) for l in ls)]

    def release(self, f, b, ls, ind):
        t = f.ops[b][2]
        if t[0] == "call" and self.keeps(f.types.get(t[1], "")):
            return []
        rs = {tuple(x for l in ls for x in dict(c).get(l, ())) for c in self.held_by(f, b)}
        if len(rs) > 1:
            raise ExtractError("a drop releases different locks in " + f.name)
        return [ind + "vgive(Ghost(L%d), Tracked(h)); // %s" % (self.rank[x], x) for r in rs for x in r]
