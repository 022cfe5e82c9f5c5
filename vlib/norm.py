"""Rewrites of the source text that keep its meaning, made before the annotations are laid on it: a function that
the annotated tree does not have is unfolded where it is called (its parameters bound by `let`, as a call binds them), and
`while let Some(x) = h.pop()`, `let Some(x) = h.pop() else { break }` at the head of a loop and `.iter().all(f)` take the
form the annotated tree uses. Line numbers stay as they are."""
import re
from rust import lex, match_close, parse_items, skip_generics, ExtractError

EXITS = {"return", "?", "yield", "await"}


def fn_paths(items, toks):
    """path -> item, of every function at item level and in impl blocks (as in Unit's directives)"""
    out = {}
    for it in items:
        if it.kind == "fn":
            out.setdefault(it.name, []).append((None, it))
        elif it.kind == "impl":
            pre = (it.trait + " for " if it.trait else "") + it.name + "::"
            for f in parse_items(toks, it.body[0] + 1, it.body[1]):
                if f.kind == "fn":
                    out.setdefault(pre + f.name, []).append((it, f))
    return out


def flat(src, toks, a, b):
    """text of the tokens [a,b) on one line, without comments"""
    out = []
    for i in range(a, b):
        if i > a and toks[i].s > toks[i - 1].e:
            out.append(" ")
        out.append(toks[i].t)
    return "".join(out)


def split_commas(T, a, b):
    parts, s, i = [], a, a
    while i < b:
        if T[i].t in ("(", "[", "{"):
            i = match_close(T, i)
        elif T[i].t == "<" and T[i - 1].t == "::":
            i = skip_generics(T, i) - 1
        elif T[i].t == ",":
            parts.append((s, i))
            s = i + 1
        i += 1
    if s < b:
        parts.append((s, b))
    return parts


class Helper:
    def __init__(self, src, toks, owner, f):
        self.name, self.owner = f.name, owner.name if owner else None
        self.ok = False
        if f.body is None or (owner and owner.trait) or f.quals:
            return
        T = toks
        self.range = (f.a, f.b)
        o, c = f.params
        self.recv, self.params = None, []
        k, d, s = o + 1, 0, o + 1
        parts = []
        while k < c:
            t = T[k].t
            if t in ("(", "[", "{"):
                k = match_close(T, k)
            elif t == "<":
                k = skip_generics(T, k) - 1
            elif t == ",":
                parts.append((s, k))
                s = k + 1
            k += 1
        if s < c:
            parts.append((s, c))
        for n, (a, b) in enumerate(parts):
            ts = [x.t for x in T[a:b]]
            if n == 0 and "self" in ts and ":" not in ts:
                lts = [x.t for x in T[a:b] if x.k != "life"]
                self.recv = " ".join(lts)
                if self.recv not in ("self", "& self", "& mut self"):
                    return
                continue
            mut = ts[0] == "mut"
            p = a + (1 if mut else 0)
            if T[p].k != "id" or T[p + 1].t != ":":
                return
            self.params.append((T[p].t, mut))
        bo, bc = f.body
        body = T[bo + 1:bc]
        for k, x in enumerate(body):
            if x.t in ("return", "await", "?"):
                return
            if x.k == "id" and x.t == self.name:
                return
        self.body = [(x.t, x.k, " " if k and x.s > body[k - 1].e else "") for k, x in enumerate(body)]
        self.ok = True

    def text(self, selfname):
        return "".join(sp + (selfname if t == "self" and k == "id" else t) for t, k, sp in self.body)


def unfold(src, known, rules):
    """calls of functions outside `known` in this file"""
    for _ in range(6):
        toks = lex(src)
        items = [x for x in parse_items(toks, 0, len(toks)) if not any(a.replace(" ", "").startswith("cfg(test)") for a in x.attrs)]
        paths = fn_paths(items, toks)
        helpers = {}
        for p, fs in paths.items():
            if p in known or len(fs) != 1:
                continue
            h = Helper(src, toks, *fs[0])
            if h.ok:
                helpers.setdefault(h.name, []).append(h)
        helpers = {k: v[0] for k, v in helpers.items() if len(v) == 1 and not any(x.split("::")[-1] == k for x in known)}
        if not helpers:
            return src
        leaf = {k: h for k, h in helpers.items() if not any(t in helpers for t, kk, _ in h.body if kk == "id")}
        inside = [h.range for h in leaf.values()]
        cuts = []
        i = 0
        while i < len(toks):
            t = toks[i]
            if t.k == "id" and t.t in leaf and toks[i - 1].t != "fn" and toks[i + 1].t in ("(", "::"):
                h = leaf[t.t]
                o = i + 1
                if toks[o].t == "::":
                    o = skip_generics(toks, o + 1)
                if toks[o].t == "(":
                    c = match_close(toks, o)
                    r = call(src, toks, i, o, c, h)
                    if r:
                        cuts.append(r)
                        i = c
            i += 1
        if not cuts:
            return src
        out, pos = [], 0
        for a, b, t in cuts:
            nl = src[a:b].count("\n")
            out.append(src[pos:a] + t + "\n" * nl)
            pos = b
            rules["call of a new function unfolded"] = rules.get("call of a new function unfolded", 0) + 1
        src = "".join(out) + src[pos:]
        # further calls inside arguments: next pass
    return src


def call(src, T, i, o, c, h):
    args = split_commas(T, o + 1, c)
    lets, pre = [], []
    selfname = "self"
    s = i
    if h.recv:
        if T[i - 1].t == ".":
            if T[i - 2].t == "self" and T[i - 3].t != ".":
                s = i - 2
            else:
                s = chain_start(T, i - 2)
                recv = flat(src, T, s, i - 1)
                selfname = "self__h"
                amp = {"self": "", "& self": "&", "& mut self": "&mut "}[h.recv]
                pre.append("let %s = %s%s;" % (selfname, amp, recv))
        else:
            return None
    else:
        if T[i - 1].t == ".":
            return None
        if T[i - 1].t == "::":
            if T[i - 2].t not in ("Self", h.owner or ""):
                return None
            s = i - 2
    if len(args) != len(h.params):
        return None
    names = [n for n, _ in h.params]
    later = set(names)
    for k, ((a, b), (n, mut)) in enumerate(zip(args, h.params)):
        txt = flat(src, T, a, b)
        if txt == n and not mut and T[a].k == "id" and b == a + 1:
            continue
        clash = any(T[x].k == "id" and T[x].t in later and T[x].t != n for x in range(a, b))
        if clash:
            pre.append("let h__%d = %s;" % (k, txt))
            txt = "h__%d" % k
            lets.append("let %s%s = %s;" % ("mut " if mut else "", n, txt))
        else:
            lets.append("let %s%s = %s;" % ("mut " if mut else "", n, txt))
    body = h.text(selfname)
    if not pre and not lets and ";" not in body and "{" not in body:
        new = "(%s)" % body
    else:
        new = "{ %s }" % " ".join(pre + lets + [body])
        # a block at the head of a statement would end it; in a condition it would be taken for the body
        p = T[s - 1].t
        q = T[c + 1].t
        if not (q == ";" and p in (";", "{", "}")):
            new = "(%s)" % new
    return (T[s].s, T[c].e, new)


def chain_start(T, k):
    """first token of the postfix chain that ends at k"""
    while True:
        t = T[k].t
        if t in (")", "]"):
            d = 0
            while True:
                if T[k].t in (")", "]", "}"):
                    d += 1
                elif T[k].t in ("(", "[", "{"):
                    d -= 1
                    if d == 0:
                        break
                k -= 1
            if T[k - 1].k == "id" or T[k - 1].t in (")", "]"):
                k -= 1
                continue
            return k
        if t == "?":
            k -= 1
            continue
        if T[k - 1].t in (".", "::"):
            k -= 2
            continue
        return k


def loops(src, rules):
    def c(r):
        rules[r] = rules.get(r, 0) + 1
    while True:
        T = lex(src)
        done = True
        for i, t in enumerate(T):
            if t.t != "while" or t.k != "id":
                continue
            # while let Some(x) = E.pop() {
            if [x.t for x in T[i + 1:i + 4]] == ["let", "Some", "("]:
                pc = match_close(T, i + 3)
                if T[pc + 1].t != "=":
                    continue
                j = pc + 2
                while T[j].t != "{":
                    if T[j].t in ("(", "["):
                        j = match_close(T, j)
                    j += 1
                if [x.t for x in T[j - 4:j]] == [".", "pop", "(", ")"]:
                    e = src[T[pc + 2].s:T[j - 5].e]
                    pat = flat(src, T, i + 4, pc)
                    src = src[:T[i].s] + "while !%s.is_empty() { let %s = %s.pop().unwrap();" % (e, pat, e) + src[T[j].e:]
                    c("`while let Some(x) = h.pop()` takes the form `while !h.is_empty() { let x = h.pop().unwrap(); ..`")
                    done = False
                    break
                continue
            # while C { let Some(x) = E.pop() else { break; };
            j = i + 1
            while T[j].t != "{":
                if T[j].t in ("(", "["):
                    j = match_close(T, j)
                j += 1
            if [x.t for x in T[j + 1:j + 4]] == ["let", "Some", "("] and T[i + 1].t != "let":
                pc = match_close(T, j + 3)
                k = pc + 1
                while T[k].t not in ("else", ";", "{"):
                    k += 1
                if T[k].t == "else" and [x.t for x in T[k + 1:k + 5]] == ["{", "break", ";", "}"] and T[k + 5].t == ";" and [x.t for x in T[k - 4:k]] == [".", "pop", "(", ")"]:
                    e = src[T[pc + 2].s:T[k - 5].e]
                    pat = flat(src, T, j + 4, pc)
                    cond = src[T[i + 1].s:T[j - 1].e]
                    nl = src[T[j].e:T[k + 5].e].count("\n")
                    src = src[:T[i].s] + "while !%s.is_empty() && (%s) { let %s = %s.pop().unwrap();" % (e, cond, pat, e) + "\n" * nl + src[T[k + 5].e:]
                    c("`let Some(x) = h.pop() else { break; }` at the head of a loop put in its condition")
                    done = False
                    break
        if done:
            return src


def all_any(src, rules):
    while True:
        T = lex(src)
        for i, t in enumerate(T):
            if t.t == "all" and T[i - 1].t == "." and [x.t for x in T[i - 5:i]] == [".", "iter", "(", ")", "."] and T[i + 1].t == "(" and T[i + 2].t in ("|",):
                c = match_close(T, i + 1)
                p = i + 3
                while T[p].t != "|":
                    p += 1
                s = chain_start(T, i - 6)
                body = src[T[p + 1].s:T[c - 1].e]
                src = src[:T[s].s] + "!" + src[T[s].s:T[i].s] + "any" + src[T[i].e:T[p].e] + " !(" + body + ")" + src[T[c].s:]
                rules["`.iter().all(f)` takes the form `!.iter().any(!f)`"] = rules.get("`.iter().all(f)` takes the form `!.iter().any(!f)`", 0) + 1
                break
        else:
            return src


def options(src, rules):
    """E.is_some_and(|x| b), E.is_none_or(|x| b), E.map_or(d, |x| b) as a match"""
    bad = 0
    while True:
        T = lex(src)
        n = 0
        for i, t in enumerate(T):
            if t.k != "id" or t.t not in ("is_some_and", "is_none_or", "map_or") or T[i - 1].t != "." or T[i + 1].t != "(":
                continue
            n += 1
            if n <= bad:
                continue
            c = match_close(T, i + 1)
            args = split_commas(T, i + 2, c)
            if t.t == "map_or":
                if len(args) != 2 or any(T[k].t in ("(", "[", "{") for k in range(*args[0])):
                    bad += 1
                    break
                dflt = flat(src, T, *args[0])
                a = args[1][0]
            else:
                dflt = "false" if t.t == "is_some_and" else "true"
                a = i + 2
            if T[a].t == "move":
                a += 1
            if T[a].t != "|":
                bad += 1
                break
            p = a + 1
            while T[p].t != "|":
                p = match_close(T, p) + 1 if T[p].t in ("(", "[") else p + 1
            end = c - 1 if T[c - 1].t == "," else c
            if any(T[k].t in EXITS for k in range(p, end)) or ":" in [T[k].t for k in range(a + 1, p)]:
                bad += 1
                break
            s = chain_start(T, i - 2)
            e = src[T[s].s:T[i - 2].e]
            nl = src[T[i - 2].e:T[c].e].count("\n") - src[T[p + 1].s:T[end - 1].e].count("\n")
            src = src[:T[s].s] + "(match %s { Some(%s) => %s, None => %s })" % (e, flat(src, T, a + 1, p), src[T[p + 1].s:T[end - 1].e], dflt) + "\n" * nl + src[T[c].e:]
            r = "`.%s(..)` of an option written as a match" % t.t
            rules[r] = rules.get(r, 0) + 1
            break
        else:
            return src


def normal(src, known):
    rules = {}
    if known is not None:
        try:
            s = unfold(src, known, rules)
            lex(s)
            src = s
        except (ExtractError, IndexError):
            pass
    src = loops(src, rules)
    src = all_any(src, rules)
    src = options(src, rules)
    return src, rules
