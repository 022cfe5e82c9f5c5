"""A small Rust lexer, item finder and span-splicing rewriter.

Nothing here re-types program text: functions are located by token matching in the
file as it is now, and every edit is an insertion or a replacement of a token span,
so whatever is not touched by a rule is the source text itself.
"""
import re


class ExtractError(Exception):
    pass


class Tok:
    __slots__ = ("k", "t", "s", "e")

    def __init__(self, k, t, s, e):
        self.k, self.t, self.s, self.e = k, t, s, e

    def __repr__(self):
        return "%s:%s" % (self.k, self.t)


PUNCT3 = ["<<=", ">>=", "...", "..="]
PUNCT2 = ["->", "=>", "::", "..", "&&", "||", "==", "!=", "<=", ">=", "+=", "-=", "*=", "/=", "%=", "^=", "|=", "&=", "<<"]
# '>>' is left as two '>' so that generics nest.


def lex(src):
    toks = []
    i, n = 0, len(src)
    while i < n:
        c = src[i]
        if c.isspace():
            i += 1
            continue
        if src.startswith("//", i):
            j = src.find("\n", i)
            i = n if j < 0 else j
            continue
        if src.startswith("/*", i):
            d, j = 1, i + 2
            while j < n and d:
                if src.startswith("/*", j):
                    d += 1
                    j += 2
                elif src.startswith("*/", j):
                    d -= 1
                    j += 2
                else:
                    j += 1
            i = j
            continue
        m = re.compile(r'(?:b|c)?r(#*)"').match(src, i)
        if m:
            end = src.find('"' + m.group(1), m.end())
            if end < 0:
                raise ExtractError("unterminated raw string")
            e = end + 1 + len(m.group(1))
            toks.append(Tok("str", src[i:e], i, e))
            i = e
            continue
        if c == '"' or (c in "bc" and i + 1 < n and src[i + 1] == '"'):
            j = i + (1 if c == '"' else 2)
            while j < n and src[j] != '"':
                j += 2 if src[j] == "\\" else 1
            toks.append(Tok("str", src[i:j + 1], i, j + 1))
            i = j + 1
            continue
        if c == "'" or (c == "b" and i + 1 < n and src[i + 1] == "'"):
            j = i + (1 if c == "'" else 2)
            # char literal or lifetime
            m = re.compile(r"(\\(x[0-9a-fA-F]{2}|u\{[^}]*\}|.)|[^\\'])'", re.S).match(src, j)
            if m:
                toks.append(Tok("char", src[i:m.end()], i, m.end()))
                i = m.end()
                continue
            m = re.compile(r"[A-Za-z_]\w*").match(src, j)
            if not m:
                raise ExtractError("bad quote at %d" % i)
            toks.append(Tok("life", src[i:m.end()], i, m.end()))
            i = m.end()
            continue
        if c.isalpha() or c == "_":
            m = re.compile(r"[A-Za-z_]\w*").match(src, i)
            toks.append(Tok("id", m.group(), i, m.end()))
            i = m.end()
            continue
        if c.isdigit():
            m = re.compile(r"0[xob][0-9a-fA-F_]+\w*|[0-9][0-9_]*").match(src, i)
            j = m.end()
            if not m.group().startswith(("0x", "0o", "0b")):
                # fraction: '.' not followed by '.', identifier start
                if j < n and src[j] == "." and not (j + 1 < n and (src[j + 1] == "." or src[j + 1].isalpha() or src[j + 1] == "_")) \
                        and not (toks and toks[-1].t == "." and toks[-1].e == i):
                    m2 = re.compile(r"\.[0-9_]*").match(src, j)
                    j = m2.end()
                m2 = re.compile(r"[eE][+-]?[0-9_]+").match(src, j)
                if m2:
                    j = m2.end()
                m2 = re.compile(r"(f32|f64|u8|u16|u32|u64|u128|usize|i8|i16|i32|i64|i128|isize)").match(src, j)
                if m2:
                    j = m2.end()
            toks.append(Tok("num", src[i:j], i, j))
            i = j
            continue
        for p in PUNCT3:
            if src.startswith(p, i):
                toks.append(Tok("p", p, i, i + 3))
                i += 3
                break
        else:
            for p in PUNCT2:
                if src.startswith(p, i):
                    toks.append(Tok("p", p, i, i + 2))
                    i += 2
                    break
            else:
                toks.append(Tok("p", c, i, i + 1))
                i += 1
    return toks


OPEN = {"(": ")", "[": "]", "{": "}"}
CLOSE = set(OPEN.values())


def match_close(toks, i):
    """index of the token closing the group opened at i"""
    want = []
    for j in range(i, len(toks)):
        t = toks[j]
        if t.k != "p":
            continue
        if t.t in OPEN:
            want.append(OPEN[t.t])
        elif t.t in CLOSE:
            if not want or want[-1] != t.t:
                raise ExtractError("unbalanced groups")
            want.pop()
            if not want:
                return j
    raise ExtractError("unbalanced groups")


def skip_generics(toks, i):
    """toks[i] is '<': index just after the matching '>'"""
    d = 0
    j = i
    while j < len(toks):
        t = toks[j].t if toks[j].k == "p" else None
        if t == "<":
            d += 1
        elif t == "<<":
            d += 2
        elif t == ">":
            d -= 1
            if d == 0:
                return j + 1
        elif t in OPEN:
            j = match_close(toks, j)
        j += 1
    raise ExtractError("unbalanced generics")


class Item:
    """kind fn/struct/enum/impl/trait/mod/const/type/use/macro; token range [a,b)"""

    def __init__(self, kind, name, a, b, attrs, **kw):
        self.kind, self.name, self.a, self.b, self.attrs = kind, name, a, b, attrs
        self.__dict__.update(kw)


def parse_items(toks, a, b):
    items = []
    i = a
    while i < b:
        attrs = []
        start = i
        while i < b and toks[i].t == "#" and i + 1 < b and toks[i + 1].t in ("[", "!"):
            k = i + 1 if toks[i + 1].t == "[" else i + 2
            j = match_close(toks, k)
            attrs.append(" ".join(t.t for t in toks[k + 1:j]))
            i = j + 1
        if i >= b:
            break
        body_start = i
        if toks[i].t == "pub":
            i += 1
            if i < b and toks[i].t == "(":
                i = match_close(toks, i) + 1
        quals = []
        while i < b and toks[i].t in ("unsafe", "async", "extern", "const", "default") :
            if toks[i].t == "const" and toks[i + 1].k == "id" and toks[i + 1].t not in ("fn", "unsafe", "extern", "async"):
                break
            quals.append(toks[i].t)
            i += 1
            if toks[i - 1].t == "extern" and toks[i].k == "str":
                i += 1
        if i >= b:
            break
        t = toks[i].t
        if t == "fn":
            name = toks[i + 1].t
            j = i + 2
            if toks[j].t == "<":
                j = skip_generics(toks, j)
            if toks[j].t != "(":
                raise ExtractError("fn params of " + name)
            pc = match_close(toks, j)
            k = pc + 1
            while toks[k].t not in ("{", ";"):
                if toks[k].t == "<":
                    k = skip_generics(toks, k)
                    continue
                if toks[k].t in OPEN:
                    k = match_close(toks, k)
                k += 1
            if toks[k].t == ";":
                e = k + 1
                body = None
            else:
                c = match_close(toks, k)
                e = c + 1
                body = (k, c)
            items.append(Item("fn", name, start, e, attrs, kw=i, quals=quals, params=(j, pc), body=body, vis_from=body_start))
            i = e
            continue
        if t in ("impl", "trait", "mod") or (t == "union" and toks[i + 1].k == "id"):
            j = i + 1
            if toks[j].t == "<":
                j = skip_generics(toks, j)
            h0 = j
            while toks[j].t not in ("{", ";"):
                if toks[j].t == "<":
                    j = skip_generics(toks, j)
                    continue
                if toks[j].t in OPEN and toks[j].t != "{":
                    j = match_close(toks, j)
                j += 1
            if toks[j].t == ";":
                items.append(Item(t, toks[i + 1].t, start, j + 1, attrs))
                i = j + 1
                continue
            c = match_close(toks, j)
            if t == "impl":
                tr, ty = impl_names(toks, h0, j)
                items.append(Item("impl", ty, start, c + 1, attrs, trait=tr, body=(j, c), head=(i, j)))
            else:
                items.append(Item(t, toks[i + 1].t, start, c + 1, attrs, body=(j, c)))
            i = c + 1
            continue
        if t in ("struct", "enum"):
            j = i + 2
            while toks[j].t not in ("{", ";", "("):
                if toks[j].t == "<":
                    j = skip_generics(toks, j)
                    continue
                j += 1
            grp = None
            if toks[j].t == "{":
                c = match_close(toks, j)
                grp = (j, c)
                e = c + 1
            elif toks[j].t == "(":
                c = match_close(toks, j)
                grp = (j, c)
                j = c
                while toks[j].t != ";":
                    j += 1
                e = j + 1
            else:
                e = j + 1
            items.append(Item(t, toks[i + 1].t, start, e, attrs, kw=i, grp=grp, vis_from=body_start))
            i = e
            continue
        if t == "macro_rules" and toks[i + 1].t == "!":
            c = match_close(toks, i + 3)
            items.append(Item("macro", toks[i + 2].t, start, c + 1, attrs, body=(i + 3, c)))
            i = c + 1
            if i < b and toks[i].t == ";":
                i += 1
            continue
        # const, static, type, use, extern crate, macro invocation
        kind = t
        name = toks[i + 1].t if i + 1 < b else ""
        j = i
        while j < b and toks[j].t != ";":
            if toks[j].t in OPEN:
                j = match_close(toks, j)
                if toks[j].t == "}" and not (j + 1 < b and toks[j + 1].t == ";") and kind not in ("const", "static", "use", "type", "let"):
                    break
            j += 1
        items.append(Item(kind, name, start, min(j + 1, b), attrs, kw=i, vis_from=body_start))
        i = j + 1
    return items


def impl_names(toks, a, b):
    """last path identifiers of trait (or None) and self type in an impl header"""
    parts, cur, j = [], [], a
    while j < b:
        if toks[j].t == "where":
            break
        if toks[j].t == "for" and toks[j + 1].t != "<":
            parts.append(cur)
            cur = []
            j += 1
            continue
        if toks[j].t == "<":
            e = skip_generics(toks, j)
            j = e
            continue
        cur.append(toks[j])
        j += 1
    parts.append(cur)

    def last(ts):
        ids = [x.t for x in ts if x.k == "id" and x.t not in ("mut", "dyn")]
        return ids[-1] if ids else "".join(x.t for x in ts)
    if len(parts) == 1:
        return None, last(parts[0])
    return last(parts[0]), last(parts[1])


def expand_macros(src):
    """macro_rules with one arm whose parameters are a plain list, invoked at item level, are expanded in place, as the compiler does"""
    toks = lex(src)
    macros, cuts, i, n = {}, [], 0, len(toks)
    while i < n:
        t = toks[i].t
        if t == "macro_rules" and toks[i + 1].t == "!":
            name, o = toks[i + 2].t, i + 3
            c = match_close(toks, o)
            pc = match_close(toks, o + 1)
            params = [toks[k + 1].t for k in range(o + 2, pc) if toks[k].t == "$"]
            if toks[pc + 1].t == "=>":
                bc = match_close(toks, pc + 2)
                one = bc + 1 == c or toks[bc + 1].t == ";" and bc + 2 == c
                macros[name] = (params, pc + 3, bc) if one else None
            i = c + 1
            continue
        if t in ("(", "[", "{"):
            i = match_close(toks, i) + 1
            continue
        if toks[i].k == "id" and t in macros and i + 2 < n and toks[i + 1].t == "!":
            c = match_close(toks, i + 2)
            if macros[t] is None:
                raise ExtractError("macro with several arms: " + t)
            params, b0, b1 = macros[t]
            args, k, a0 = [], i + 3, i + 3
            while k <= c:
                if toks[k].t == "," or k == c:
                    if k > a0:
                        args.append(src[toks[a0].s:toks[k - 1].e])
                    a0 = k + 1
                elif toks[k].t in ("(", "[", "{"):
                    k = match_close(toks, k)
                k += 1
            if len(args) != len(params):
                raise ExtractError("macro %s: %d arguments" % (t, len(args)))
            env = dict(zip(params, args))
            out, pos, k = [], toks[b0].s, b0
            while k < b1:
                if toks[k].t == "$" and toks[k + 1].t in env:
                    out.append(src[pos:toks[k].s] + env[toks[k + 1].t])
                    pos = toks[k + 1].e
                    k += 1
                k += 1
            out.append(src[pos:toks[b1 - 1].e])
            s = i
            while toks[s - 1].t == "::":
                s -= 2
            e = c + 1 if c + 1 < n and toks[c + 1].t == ";" else c
            cuts.append((toks[s].s, toks[e].e, "\n" + "".join(out) + "\n"))
            i = e + 1
            continue
        i += 1
    res, pos = [], 0
    for a, b, t in cuts:
        res.append(src[pos:a] + t)
        pos = b
    return "".join(res) + src[pos:]


def ffi_rewrites(src):
    """the C interface (src/libext.rs): raw pointers, boxes and strings are given names with contracts, textually; returns text and counts"""
    cnt = {}

    def c(rule):
        cnt[rule] = cnt.get(rule, 0) + 1

    def type_end(T, i):
        # index after the type that starts at T[i]
        if T[i].t == "*" and T[i + 1].t in ("const", "mut"):
            return type_end(T, i + 2)
        i += 1
        while T[i].t == "::":
            i += 2
        if T[i].t == "<":
            i = skip_generics(T, i)
        return i

    def closing(T, i):
        return match_close(T, i)

    def one_pass(src, f):
        """f(T, i) -> (end index, text) or None, at every token from the left; not repeated inside what it replaced"""
        T = lex(src)
        out, pos, i = [], 0, 0
        while i < len(T):
            r = f(T, i)
            if r:
                e, txt = r
                out.append(src[pos:T[i].s] + txt)
                pos = T[e - 1].e
                i = e
            else:
                i += 1
        out.append(src[pos:])
        return "".join(out)

    def txt(T, a, b):
        return " ".join(t.t for t in T[a:b])

    def f_cfn(T, i):
        if T[i].t == "extern" and toks_at(T, i + 1, ['"C"', "fn", "("]):
            e = closing(T, i + 3)
            m = [t.t for t in T[i + 4:e] if t.t != ","]
            if m[:1] == ["*"] and m == ["*", "const", m[2], "*", "const", m[2], "c_ulonglong"] and toks_at(T, e + 1, ["->", "f32"]):
                c("C function pointer type named CFn")
                return e + 3, "CFn<%s>" % m[2]

    def f_ptr(T, i):
        if T[i].t == "*" and i + 1 < len(T) and T[i + 1].t in ("const", "mut"):
            e = type_end(T, i)
            inner, n, k = txt(T, i + 2, e), 1, i + 2
            while T[k].t == "*":
                k, n = k + 2, n + 1
            c("raw pointer type named CPtr")
            return e, "CPtr<" * n + txt(T, k, e) + ">" * n

    def f_names(T, i):
        for old, new in NAMES:
            if toks_at(T, i, old) and not (i and T[i - 1].t in ("::", ".")):
                c("`%s` named `%s`" % ("".join(old), new))
                return i + len(old), new
        if toks_at(T, i, ["ptr", "::", "null"]) and T[i - 1].t != "::" or toks_at(T, i, ["std", "::", "ptr", "::", "null"]):
            e = i + (3 if T[i].t == "ptr" else 5)
            c("`ptr::null` named vnull")
            return e, "vnull"
        if T[i].t == "(" and toks_at(T, i + 1, ["*"]) and T[i + 2].k == "id" and toks_at(T, i + 3, [")", "."]):
            c("`(*p).` named vat(p)")
            return i + 4, "vat(%s)" % T[i + 2].t
        if T[i].k == "id" and toks_at(T, i + 1, [".", "as_ptr", "(", ")"]) and T[i - 1].t != ".":
            c("`x.as_ptr()` named vas_ptr(&x)")
            return i + 5, "vas_ptr(&%s)" % T[i].t
        if T[i].k == "id" and toks_at(T, i + 1, [".", "iter", "(", ")", ".", "map", "("]) and T[i - 1].t != ".":
            e = closing(T, i + 7)
            arg = [t.t for t in T[i + 8:e]]
            if arg[:1] == ["|"] and arg[2:3] == ["|"] and arg[-3:] == ["(", arg[1], ")"]:
                arg = arg[3:-3]
            if toks_at(T, e + 1, [".", "collect", "(", ")"]) and all(a == "::" or a[0].isalpha() or a[0] == "_" for a in arg):
                c("`.iter().map(f).collect()` named vmap_fn")
                return e + 5, "vmap_fn(&%s, %s)" % (T[i].t, "".join(arg).replace("Neighbour_api::from", "Neighbour_api::vfrom_nb"))
        if T[i].k == "id" and toks_at(T, i + 1, ["=="]) and i + 2 < len(T) and T[i + 2].t.startswith('"') and T[i - 1].t != ".":
            c("`s == literal` named veqs")
            return i + 3, "veqs(&%s, %s)" % (T[i].t, T[i + 2].t)
        if toks_at(T, i, ["OpenOptions", "::", "new", "(", ")", ".", "read", "(", "true", ")", ".", "open", "("]):
            c("`OpenOptions::new().read(true).open` named vopen_read")
            return i + 12, "vopen_read"
        if toks_at(T, i, ["Box", "<", "dyn", "AnnT", "<", "Val", "="]):
            e = i + 7
            while T[e].t != ">" and T[e].t != ">>":
                e += 1
            c("`Box<dyn AnnT<Val = T>>` named VAnn<T>")
            return (e + 1 if T[e].t == ">>" else e + 2), "VAnn<%s>" % txt(T, i + 7, e)

    def f_match(T, i):
        if T[i].t == "match" and T[i + 1].k == "id" and T[i + 2].t == "." and T[i + 3].t in ("as_str", "as_ref") and toks_at(T, i + 4, ["(", ")", "{"]):
            e = closing(T, i + 6)
            arms, k, x = [], i + 7, T[i + 1].t
            while k < e:
                pat = []
                while T[k].t != "=>":
                    pat.append(T[k].t)
                    k += 1
                a = k + 1
                if T[a].t == "{":
                    b = closing(T, a) + 1
                else:
                    b = a
                    while b < e and T[b].t != ",":
                        b = closing(T, b) + 1 if T[b].t in ("(", "[", "{") else b + 1
                k = b + 1 if b < e and T[b].t == "," else b
                arms.append((pat, a, b))
            r = []
            for pat, a, b in arms:
                body = src_now[0][T[a].s:T[b - 1].e]
                if T[a].t != "{":
                    body = "{ %s }" % body
                if pat == ["_"]:
                    r.append(body)
                elif all(q == "|" or q.startswith('"') for q in pat):
                    r.append("if %s %s" % (" || ".join("veqs(&%s, %s)" % (x, q) for q in pat if q != "|"), body))
                else:
                    return None
            if arms[-1][0] != ["_"]:
                return None
            c("match on a string written as tests")
            return e + 1, "{ " + " else ".join(r) + " }"

    NAMES = [
        (["std", "::", "slice", "::", "from_raw_parts"], "vraw_parts"),
        (["Vec", "::", "from"], "vfrom_slice"),
        (["Box", "::", "new"], "vbox"),
        (["Box", "::", "into_raw"], "vbox_raw"),
        (["std", "::", "mem", "::", "forget"], "vforget"),
        (["String", "::", "from_utf8_lossy"], "vlossy"),
        (["String", "::", "clone"], "vsclone"),
        (["anndists", "::", "dist", "::", "distances", "::"], ""),
        (["anndists", "::", "dist", "::"], ""),
        (["PathBuf", "::", "from"], "vpath"),
        (["std", "::", "path", "::", "Path", "::", "new"], "&vpath"),
        (["Path", "::", "new"], "&vpath"),
        (["BufReader", "::", "with_capacity"], "vbufr"),
        (["Neighbour_api", "::", "from"], "Neighbour_api::vfrom_nb"),
    ]
    src_now = [src]
    for f in (f_cfn, f_ptr, f_match, f_names):
        src_now[0] = src
        src = one_pass(src, f)
    return src, cnt


def toks_at(T, i, words):
    return i + len(words) <= len(T) and all(T[i + k].t == w for k, w in enumerate(words))


class SrcFile:
    def __init__(self, path, known=None):
        self.path, self.rules = path, {}
        with open(path, encoding="utf-8") as f:
            self.src = f.read()
        if path.endswith("libext.rs"):
            self.src, self.rules = ffi_rewrites(expand_macros(self.src))
        import norm
        self.src, r = norm.normal(self.src, known)
        self.rules.update(r)
        self.toks = lex(self.src)
        self.items = [x for x in parse_items(self.toks, 0, len(self.toks)) if not any(a.replace(" ", "").startswith("cfg(test)") for a in x.attrs)]

    def text(self, a, b):
        return self.src[self.toks[a].s:self.toks[b - 1].e]

    def find_fn(self, path):
        """'name' | 'Type::name' | 'Trait for Type::name' | 'outer/inner' (a function inside a function, or beside it)"""
        if "/" in path:
            outer, inner = path.split("/")
            o = self.find_fn(outer)
            found = []
            for k in range(o.body[0] + 1, o.body[1]):
                if self.toks[k].t == "fn" and self.toks[k + 1].t == inner:
                    e = k
                    while self.toks[e].t != "{":
                        e += 1
                    found += parse_items(self.toks, k, match_close(self.toks, e) + 1)
            if len(found) != 1:
                return self.find_fn(inner)
            found[0].owner = None
            return found[0]
        if "::" in path:
            owner, name = path.rsplit("::", 1)
            trait = None
            if " for " in owner:
                trait, owner = [x.strip() for x in owner.split(" for ")]
            found = []
            for it in self.items:
                if it.kind == "impl" and it.name == owner and it.trait == trait:
                    for f in parse_items(self.toks, it.body[0] + 1, it.body[1]):
                        if f.kind == "fn" and f.name == name:
                            f.owner = it
                            found.append(f)
        else:
            name = path
            found = [it for it in self.items if it.kind == "fn" and it.name == name]
            for f in found:
                f.owner = None
        if len(found) != 1:
            raise ExtractError("%s: %d functions match %s" % (self.path, len(found), path))
        return found[0]

    def find_item(self, kind, name):
        found = [it for it in self.items if it.kind == kind and it.name == name]
        if len(found) != 1:
            raise ExtractError("%s: %d items match %s %s" % (self.path, len(found), kind, name))
        return found[0]

    def fn_names(self):
        out = {}
        for it in self.items:
            if it.kind == "fn":
                out.setdefault(it.name, []).append(None)
            elif it.kind in ("impl",):
                for f in parse_items(self.toks, it.body[0] + 1, it.body[1]):
                    if f.kind == "fn":
                        out.setdefault(f.name, []).append(it.name)
        return out
