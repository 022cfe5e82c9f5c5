"""Builds a Verus file ("unit") from a template in /verif/units and the current text of /repo.

Template lines are copied; the holes are directives:

  //@include FILE                      another template file
  //@if A,B / //@else / //@endif       kept when one of the names is defined
  //@struct FILE NAME                  a struct/enum of the repository (attributes dropped, fields made pub)
  //@type FILE NAME                    a type alias / const of the repository
  //@fn FILE PATH                      a function of the repository, followed by
     //@ret NAME                         name of the returned value in the contract
     //@attr TEXT                        verifier attribute
     //@spec                             requires/ensures text
     //@loop N [ITER]                    invariant text of the N-th loop (ITER: ghost iterator name)
     //@fornext N                      the N-th loop is a for over an iterator of the crate: written as loop and next
     //@closure N HEADER                 typed header (and ensures) for the N-th closure
     //@at start|end|loop-start N|loop-end N|before-loop N|after-loop N      ghost text
     //@sub OLD => NEW                   token substitution, stated as part of the extraction (must match)
     //@sub? OLD => NEW                  the same, allowed not to match
  //@endfn
"""
import difflib
import hashlib
import json
import os
import re
from rust import SrcFile, ExtractError, lex, match_close, skip_generics, parse_items

LOGS = {"trace", "debug", "info", "warn", "error", "println", "print", "eprintln", "eprint"}
UNARY_PREV = {"(", ",", "=", "{", ";", "=>", "[", "==", "!=", "<", ">", "<=", ">=", "+", "-", "*", "/", "%", "&&", "||", "!", "+=", "-=", "*=", "/=", "..", "..=", "|", "&", "return", "if", "while", "match", "in", "}", ":"}


class Edits:
    def __init__(self):
        self.e = []

    def rep(self, s, e, t):
        self.e.append((s, e, 0, len(self.e), t))

    def ins(self, at, t, prio=0):
        self.e.append((at, at, prio, len(self.e), t))

    def apply(self, src, a, b):
        # replacements that contain other edits win
        reps = sorted([x for x in self.e if x[0] != x[1]], key=lambda x: (x[0], -x[1]))
        keep, last = [], -1
        for r in reps:
            if r[0] >= last:
                keep.append(r)
                last = r[1]
            elif r[1] > last:
                raise ExtractError("overlapping rewrites")
        inss = [x for x in self.e if x[0] == x[1] and not any(r[0] < x[0] < r[1] for r in keep)]
        out, pos = [], a
        for s, e, _, _, t in sorted(keep + inss, key=lambda x: (x[0], x[1] != x[0], x[2], x[3])):
            out.append(src[pos:s])
            out.append(t)
            pos = e
        out.append(src[pos:b])
        return "".join(out)


def strip_comments(text):
    out, i, n = [], 0, len(text)
    pos = 0
    for t in lex(text):
        gap = text[pos:t.s]
        out.append(re.sub(r"//[^\n]*", "", re.sub(r"/\*.*?\*/", "", gap, flags=re.S)))
        out.append(t.t)
        pos = t.e
    return "".join(out)


class FnSpec:
    def __init__(self, file, path):
        self.file, self.path = file, path
        self.ret = None
        self.attrs = []
        self.spec = ""
        self.loops = {}
        self.closures = {}
        self.at = []
        self.subs = []
        self.fornext = []
        self.pars = {}
        self.opts = {}


def toks_eq(toks, i, pat):
    if i + len(pat) > len(toks):
        return False
    return all(toks[i + k].t == pat[k] for k in range(len(pat)))


def operand_end(toks, i):
    """toks[i..] a unary operand: path/paren/literal followed by postfix operators; index after it"""
    j = i
    if toks[j].t in ("*", "&", "!"):
        return operand_end(toks, j + 1)
    if toks[j].t == "(":
        j = match_close(toks, j) + 1
    else:
        j += 1
        while toks[j].t == "::":
            j += 2
    while True:
        t = toks[j].t
        if t == ".":
            j += 2
            if toks[j].t == "::":
                j = skip_generics(toks, j + 1)
        elif t in ("(", "["):
            j = match_close(toks, j) + 1
        elif t == "?":
            j += 1
        else:
            return j


class FnText:
    def __init__(self, unit, sf, item, spec, rename):
        self.u, self.sf, self.item, self.spec, self.ren = unit, sf, item, spec, rename
        self.toks = sf.toks
        self.loop_stmt = {}

    def ann(self, text):
        """annotation text with renamed locals"""
        if not self.ren or not text:
            return text
        ts = lex(text)
        out, pos = [], 0
        for i, t in enumerate(ts):
            out.append(text[pos:t.s])
            if t.k == "id" and t.t in self.ren and not (i and ts[i - 1].t in (".", "$")) and not (i + 1 < len(ts) and ts[i + 1].t == "::"):
                out.append(self.ren[t.t])
            else:
                out.append(t.t)
            pos = t.e
        out.append(text[pos:])
        return "".join(out)

    def find_loops(self, a, b):
        loops = []
        T = self.toks
        i = a
        while i < b:
            t = T[i].t
            if t == "log_enabled" and T[i + 1].t == "!":
                # a log-only block is dropped, its loops do not count
                j = match_close(T, i + 2)
                if T[j + 1].t == "{":
                    i = match_close(T, j + 1)
                    continue
            if t == "fn" and T[i + 1].t in self.u.lifted:
                while T[i].t != "{":
                    i += 1
                i = match_close(T, i)
                continue
            if T[i].k == "id" and t in ("while", "for", "loop"):
                if t == "for" and T[i + 1].t == "<":
                    i += 1
                    continue
                j = i + 1
                inpos = None
                while T[j].t != "{":
                    if T[j].t in ("(", "["):
                        j = match_close(T, j)
                    elif t == "for" and T[j].t == "in" and inpos is None:
                        inpos = j
                    j += 1
                c = match_close(T, j)
                loops.append((t, i, inpos, j, c))
            i += 1
        return loops

    def find_closures(self, a, b):
        """(pipe, pipe2, body_start, body_end)"""
        T = self.toks
        out = []
        i = a
        while i < b:
            if T[i].t in ("|", "||") and T[i - 1].t in ("(", ",", "=", "move", "{", "=>", "return"):
                if T[i].t == "||":
                    p2 = i
                else:
                    p2 = i + 1
                    while T[p2].t != "|":
                        if T[p2].t in ("(", "["):
                            p2 = match_close(T, p2)
                        p2 += 1
                s = p2 + 1
                if T[s].t == "{":
                    e = match_close(T, s) + 1
                else:
                    e = s
                    while T[e].t not in (",", ")", ";", "}", "]"):
                        if T[e].t in ("(", "[", "{"):
                            e = match_close(T, e)
                        e += 1
                out.append((i, p2, s, e))
            i += 1
        return out

    def common_edits(self, ed, a, b):
        T, src = self.toks, self.sf.src
        i = a
        nbrk = 0
        while i < b:
            t = T[i]
            # macros
            if t.k == "id" and i + 1 < b and T[i + 1].t == "!" and i + 2 < b and T[i + 2].t in ("(", "[", "{"):
                c = match_close(T, i + 2)
                s = i
                while s - 2 >= a and T[s - 1].t == "::":
                    s -= 2
                inner = (i + 3, c)
                if t.t in LOGS:
                    ed.rep(T[s].s, T[c].e, "()")
                    self.u.count("log macro dropped")
                elif t.t in ("assert", "debug_assert"):
                    k = inner[0]
                    e = None
                    while k < c:
                        if T[k].t in ("(", "[", "{"):
                            k = match_close(T, k)
                        elif T[k].t == "," and e is None:
                            e = k
                        k += 1
                    ed.rep(T[s].s, T[i + 2].e, "vassert(")
                    if e is not None:
                        ed.rep(T[e].s, T[c].e, ")")
                    self.u.count("assert! made an obligation")
                elif t.t in ("assert_eq", "debug_assert_eq"):
                    k = inner[0]
                    cs = []
                    while k < c:
                        if T[k].t in ("(", "[", "{"):
                            k = match_close(T, k)
                        elif T[k].t == ",":
                            cs.append(k)
                        k += 1
                    ed.rep(T[s].s, T[i + 2].e, "vassert((")
                    ed.rep(T[cs[0]].s, T[cs[0]].e, ") == (")
                    if len(cs) > 1:
                        ed.rep(T[cs[1]].s, T[c].e, "))")
                    else:
                        ed.ins(T[c].s, ")")
                    self.u.count("assert! made an obligation")
                elif t.t in ("panic", "unreachable", "todo", "unimplemented"):
                    ed.rep(T[s].s, T[c].e, "vpanic()")
                    self.u.count("panic! made an obligation")
                elif t.t == "format":
                    ed.rep(T[s].s, T[c].e, "vformat()")
                    self.u.count("format! text abstracted")
                elif t.t in ("anyhow", "bail"):
                    ed.rep(T[s].s, T[c].e, "vanyhow()" if t.t == "anyhow" else "return Err(vanyhow())")
                    self.u.count("anyhow! text abstracted")
                elif t.t == "log_enabled":
                    # `if log_enabled!(..) { only log macros }`: dropped with its block
                    if T[s - 1].t == "if" and T[c + 1].t == "{":
                        e = match_close(T, c + 1)
                        ed.rep(T[s - 1].s, T[e].e, "();")
                        self.u.count("log-only block dropped")
                        i = e
                        continue
                    ed.rep(T[s].s, T[c].e, "vlog_enabled()")
                if t.t in ("assert", "debug_assert", "assert_eq", "debug_assert_eq"):
                    i += 3
                    continue
                if t.t in ("vec", "matches"):
                    i += 3
                    continue
                i = c + 1
                continue
            # unary minus on floats
            if t.t == "-" and T[i - 1].t in UNARY_PREV and T[i - 1].k in ("p", "id") and not (T[i - 1].t == "}" and False):
                if T[i + 1].k == "num" and "." not in T[i + 1].t and "f" not in T[i + 1].t:
                    i += 1
                    continue
                if T[i - 1].t == "}" and T[i + 1].t == ">":
                    i += 1
                    continue
                e = operand_end(T, i + 1)
                ed.rep(t.s, t.e, "vneg(")
                ed.ins(T[e - 1].e, ")", -5)
                self.u.count("unary float minus named vneg")
            # let X = loop { .. break E; .. };  =>  let mut X = varb(); loop { .. { X = E; break; } .. };
            if t.t == "loop" and T[i - 1].t == "=" and T[i + 1].t == "{":
                st = i - 2
                while T[st].t != "let":
                    st -= 1
                nm = T[st + 1].t if T[st + 1].t != "mut" else T[st + 2].t
                c = match_close(T, i + 1)
                if T[c + 1].t != ";":
                    raise ExtractError("loop value of unsupported form in " + self.spec.path)
                nbrk += 1
                ed.ins(T[c + 1].e, " let %s%s = vbrk__%d;" % ("mut " if T[st + 1].t == "mut" else "", src[T[st + 1].s if T[st + 1].t != "mut" else T[st + 2].s:T[i - 2].e], nbrk), -40)
                nm = "vbrk__%d" % nbrk
                ed.rep(T[st].s, T[i - 1].e, "let mut %s = varb();" % nm)
                self.loop_stmt[i] = True
                k = i + 2
                while k < c:
                    if T[k].t == "break" and T[k + 1].t != ";" and not self.inside_inner_loop(i + 1, c, k):
                        e = k + 1
                        while T[e].t not in (";", "}"):
                            if T[e].t in ("(", "[", "{"):
                                e = match_close(T, e)
                            e += 1
                        ed.rep(T[k].s, T[k].e, "{ %s =" % nm)
                        ed.ins(T[e - 1].e, "; break; }", -1)
                        self.u.count("loop value assigned before break")
                    k += 1
            # process exit
            if t.t == "exit" and toks_eq(T, i - 4, ["std", "::", "process", "::"]):
                c = match_close(T, i + 1)
                ed.rep(T[i - 4].s, T[c].e, "vexit()")
                i = c
            if t.t == "abort" and toks_eq(T, i - 4, ["std", "::", "process", "::"]):
                c = match_close(T, i + 1)
                ed.rep(T[i - 4].s, T[c].e, "vexit()")
                i = c
            # attributes inside bodies
            if t.t == "#" and T[i + 1].t == "[":
                c = match_close(T, i + 1)
                ed.rep(t.s, T[c].e, "")
                i = c
            if t.t == "unsafe" and T[i + 1].t == "{":
                ed.rep(t.s, t.e, "")
                self.u.count("unsafe block opened")
            i += 1

    def chain_start(self, k):
        """first token of the postfix expression whose last token is T[k]"""
        T = self.toks
        s = k
        while True:
            if T[s].t in (")", "]"):
                d = 1
                while d:
                    s -= 1
                    if T[s].t in (")", "]"):
                        d += 1
                    elif T[s].t in ("(", "["):
                        d -= 1
                if T[s - 1].k == "id" or T[s - 1].t in (")", "]"):
                    s -= 1
                    continue
            if T[s - 1].t in (".", "::"):
                s -= 2
                continue
            return s

    def collect_edits(self, ed, a, b):
        """X.iter().map(|..| ..).collect()  =>  vmap_collect(X.iter(), |..| ..)"""
        T = self.toks
        for p1, p2, s, e in self.find_closures(a, b):
            m = p1 - 2
            if T[m].t == "map" and T[m - 1].t == "." and T[m + 1].t == "(" and toks_eq(T, e, [")", ".", "collect"]) and toks_eq(T, m - 5, [".", "iter", "(", ")", "."]):
                k = e + 3
                if T[k].t == "::":
                    k = skip_generics(T, k + 1)
                if not toks_eq(T, k, ["(", ")"]):
                    continue
                ed.ins(T[self.chain_start(m - 2)].s, "vmap_collect(", -6)
                ed.rep(T[m - 1].s, T[m + 1].e, ", ")
                ed.rep(T[e + 1].s, T[k + 1].e, "")
                self.u.count("`.iter().map(f).collect()` named vmap_collect")

    def par_edits(self, ed, a, b):
        """X.par_iter().for_each(|P| B)          =>  for every item of X, in an order that is not known: B
        X.par_iter().for_each_with(s, |s, P| B)  =>  the same, with s given up at the end
        (0..n).zip(X.iter()).collect(), X.iter().enumerate().collect()  =>  vzip_range(0, n, &X)"""
        T, src = self.toks, self.sf.src
        n = 0
        texts = {}
        for where, txt in self.spec.at:
            w = where.split()
            if w[0] in ("par-start", "par-end", "par-after"):
                texts[w[0], int(w[1])] = "\n" + self.ann(txt) + "\n"
        for p1, p2, s, e in self.find_closures(a, b):
            m = p1 - 1
            while T[m].t != "(" or match_close(T, m) < p1:
                m -= 1
            m -= 1
            if T[m].t not in ("for_each", "for_each_with") or not any(toks_eq(T, m - 5, [".", w, "(", ")", "."]) for w in ("par_iter", "par_iter_mut", "into_par_iter")) or T[e].t != ")" and not toks_eq(T, e, [",", ")"]):
                continue
            n += 1
            close = match_close(T, m + 1)
            c = self.chain_start(m - 6)
            q = p1 + 1
            pre, post = "", ""
            if T[m].t == "for_each_with":
                st = src[T[m + 2].s:T[p1 - 2].e]
                pre = "let mut vst__%d = %s; " % (n, st)
                post = " vgone(vst__%d);" % n
                k = q
                while T[k].t != ",":
                    k += 1
                bind = "let %s = &mut vst__%d; " % (src[T[q].s:T[k - 1].e], n)
                q = k + 1
            else:
                bind = ""
            item = "vpar__%d[vord__%d[k__%d]]" % (n, n, n)
            if T[q].t == "&":
                bind += "let %s = %s; " % (src[T[q + 1].s:T[p2 - 1].e], item)
            else:
                bind += "let %s = &%s; " % (src[T[q].s:T[p2 - 1].e], item)
            ed.ins(T[c].s, "{ %slet vpar__%d = %s" % (pre, n, "vpar(&" if T[m - 4].t == "par_iter" else "vpar_mut("), -6)
            ed.rep(T[m - 5].s, T[p2].e, "); let vord__%d = vorder(vpar__%d.len()); for k__%d in itp%d: 0..vpar__%d.len() \n%s\n{ %s%s" % (n, n, n, n, n, self.ann(self.spec.pars.get(n, "")), bind, texts.get(("par-start", n), "")))
            ed.rep(T[e].s, T[close].e, "; %s }%s%s }" % (texts.get(("par-end", n), ""), texts.get(("par-after", n), ""), post))
            self.u.count("parallel for_each written as a loop over the items in an unknown order")
        if self.spec.pars and n != len(self.spec.pars):
            raise ExtractError("%s has %d parallel loops, the contract annotates %d" % (self.spec.path, n, len(self.spec.pars)))
        for i in range(a, b):
            if toks_eq(T, i, [")", ".", "zip", "("]):
                o = i - 1
                d = 1
                while d:
                    d += {")": 1, "(": -1}.get(T[o].t, 0)
                    if d:
                        o -= 1
                z = match_close(T, i + 3)
                dots = [k for k in range(o + 1, i) if T[k].t == ".."]
                if len(dots) == 1 and toks_eq(T, z - 4, [".", "iter", "(", ")"]) and toks_eq(T, z + 1, [".", "collect"]):
                    k = z + 3
                    if T[k].t == "::":
                        k = skip_generics(T, k + 1)
                    if toks_eq(T, k, ["(", ")"]):
                        ed.rep(T[o].s, T[o].e, "vzip_range(")
                        ed.rep(T[dots[0]].s, T[dots[0]].e, ", ")
                        ed.rep(T[i].s, T[i + 3].e, ", &")
                        ed.rep(T[z - 4].s, T[k + 1].e, ")")
                        self.u.count("a range zipped with a slice named vzip_range")
            if toks_eq(T, i, [".", "iter", "(", ")", ".", "enumerate", "(", ")", ".", "collect"]):
                k = i + 10
                if T[k].t == "::":
                    k = skip_generics(T, k + 1)
                if toks_eq(T, k, ["(", ")"]):
                    c = self.chain_start(i - 1)
                    x = src[T[c].s:T[i - 1].e]
                    ed.rep(T[c].s, T[k + 1].e, "vzip_range(0, %s.len(), &%s)" % (x, x))
                    self.u.count("a range zipped with a slice named vzip_range")

    def any_edits(self, ed, a, b):
        """X.iter().any(|..| ..)  =>  vany(X.iter(), |..| ..)   (same for all)"""
        T = self.toks
        for p1, p2, s, e in self.find_closures(a, b):
            m = p1 - 2
            if T[m].t in ("any", "all", "position") and T[m - 1].t == "." and T[m + 1].t == "(" and T[e].t == ")" and toks_eq(T, m - 5, [".", "iter", "(", ")", "."]):
                ed.ins(T[self.chain_start(m - 2)].s, "v%s(" % T[m].t, -6)
                ed.rep(T[m - 1].s, T[m + 1].e, ", ")
                self.u.count("`.iter().%s(f)` named v%s" % (T[m].t, T[m].t))

    def sort_edits(self, ed, a, b):
        """X.sort_unstable()  =>  vsort(&mut X)"""
        T = self.toks
        for i in range(a, b):
            if T[i].t in ("sort_unstable", "sort") and T[i - 1].t == "." and toks_eq(T, i + 1, ["(", ")"]):
                ed.ins(T[self.chain_start(i - 2)].s, "vsort(&mut ", -6)
                ed.rep(T[i - 1].s, T[i + 2].e, ")")
                self.u.count("`.sort_unstable()` named vsort")
            if T[i].t == "clone" and T[i - 1].t == "." and toks_eq(T, i + 1, ["(", ")"]):
                ed.rep(T[i].s, T[i].e, "vcl")
                self.u.count("`.clone()` named vcl")
            if T[i].t == "clone_from" and T[i - 1].t == "." and T[i + 1].t == "(":
                ed.ins(T[self.chain_start(i - 2)].s, "vclone_from(&mut ", -6)
                ed.rep(T[i - 1].s, T[i + 1].e, ", ")
                self.u.count("`.clone_from(x)` named vclone_from")

    def enumerate_edits(self, ed, bo, bc):
        """for (i, x) in E.iter().enumerate() {  =>  for i in 0..E.len() { let x = &E[i];"""
        T, src = self.toks, self.sf.src
        for kind, li, lin, lo, lc in self.find_loops(bo + 1, bc):
            if kind != "for" or not toks_eq(T, lo - 8, [".", "iter", "(", ")", ".", "enumerate", "(", ")"]):
                continue
            if T[li + 1].t != "(" or T[li + 3].t != "," or T[li + 5].t != ")" or lin != li + 6:
                raise ExtractError("enumerate of unsupported form in " + self.spec.path)
            i, x, e = T[li + 2].t, T[li + 4].t, src[T[lin + 1].s:T[lo - 9].e]
            ed.rep(T[li + 1].s, T[lin - 1].e, i)
            ed.rep(T[lin + 1].s, T[lo - 1].e, "0..%s.len()" % e)
            ed.ins(T[lo].e, " let %s = &%s[%s];" % (x, e, i), -15)
            self.u.count("`.iter().enumerate()` written with an index")

    SIZES = {"u8": 1, "u16": 2, "u32": 4, "i32": 4, "f32": 4, "u64": 8, "i64": 8, "f64": 8, "usize": 8, "DataId": 8}

    def io_edits(self, ed, a, b):
        """bytes of numbers, and what may panic (units with `//@mode io`)"""
        T = self.toks
        i, sized = a, -1
        while i < b:
            t = T[i]
            if t.t == "[" and T[i + 1].t == "0u8" and T[i + 2].t == ";":
                c = match_close(T, i)
                w = [x.t for x in T[i + 3:c]]
                k = w.index("size_of") if "size_of" in w else -1
                if k >= 0 and w[k + 1:k + 3] == ["::", "<"] and w[k + 4:] == [">", "(", ")"] and w[k + 3] in self.SIZES:
                    ed.rep(T[i + 3].s, T[c - 1].e, str(self.SIZES[w[k + 3]]))
                    self.u.count("size of a number written out")
                    sized = i + 3 + k
            if t.t == "size_of" and i != sized and toks_eq(T, i + 1, ["::", "<"]) and T[i + 3].t in self.SIZES and toks_eq(T, i + 4, [">", "(", ")"]):
                k = i
                while T[k - 1].t == "::":
                    k -= 2
                ed.rep(T[k].s, T[i + 6].e, "%dusize" % self.SIZES[T[i + 3].t])
                self.u.count("size of a number written out")
            if t.t == "[" and (T[i - 1].k == "id" and T[i - 1].t not in ("mut", "return", "in", "else", "as") or T[i - 1].t in (")", "]")):
                c = match_close(T, i)
                k = i + 1
                while k < c and T[k].t != "..":
                    k = match_close(T, k) + 1 if T[k].t in ("(", "[", "{") else k + 1
                if k < c:
                    s = self.chain_start(i - 1)
                    fn = "vsub" + ("" if k > i + 1 and k + 1 < c else "from" if k > i + 1 else "to" if k + 1 < c else "all")
                    ed.rep(T[s - 1].s if T[s - 1].t == "&" else T[s].s, T[s].s, "")
                    ed.ins(T[s].s, fn + "(", -7)
                    ed.rep(t.s, t.e, ", " if fn != "vsuball" else "")
                    ed.rep(T[k].s, T[k].e, ", " if fn == "vsub" else "")
                    ed.rep(T[c].s, T[c].e, ")")
                    self.u.count("slice of a range named vsub, vsubfrom, vsubto, vsuball")
            if t.t == "from_ne_bytes" and T[i - 1].t == "::":
                ed.rep(T[i - 2].s, t.e, "<%s as Ne>::from_ne" % T[i - 2].t)
                self.u.count("`from_ne_bytes` named Ne::from_ne")
            if t.t == "to_ne_bytes" and T[i - 1].t == ".":
                ed.rep(t.s, t.e, "vne")
                self.u.count("`to_ne_bytes` named Ne::vne")
            if t.t == "vec" and T[i + 1].t == "!" and T[i + 3].t in ("0", "0u8") and T[i + 4].t == ";":
                c = match_close(T, i + 2)
                ed.rep(t.s, T[i + 4].e, "vzeros(")
                ed.rep(T[c].s, T[c].e, ")")
                self.u.count("`vec![0; n]` named vzeros")
            if t.t == "as" and T[i + 1].t == "usize" and T[i - 1].k != "p" or t.t == "as" and T[i + 1].t == "usize" and T[i - 1].t in (")", "]"):
                s = self.chain_start(i - 1)
                if T[s - 1].t in ("*", "!", "-") and (T[s - 2].k == "p" and T[s - 2].t not in (")", "]")):
                    s -= 1
                ed.ins(T[s].s, "vas_usize(", -7)
                ed.rep(t.s, T[i + 1].e, ")")
                self.u.count("`as usize` named vas_usize")
            if t.t == "for" and T[i + 1].t == "(":
                c = match_close(T, i + 1)
                if toks_eq(T, c + 1, ["in", "&"]) and T[c + 3].k == "id" and T[c + 4].t == "{":
                    ed.rep(T[c + 2].s, T[c + 2].e, "")
                    ed.ins(T[c + 3].e, ".iter()", 4)
                    self.u.count("`for (k, v) in &map` written with iter()")
            if t.t in ("+=", "-=") and self.u.may_panic:
                s, e = self.chain_start(i - 1), i + 1
                while T[e].t != ";":
                    e = match_close(T, e) + 1 if T[e].t in ("(", "[", "{") else e + 1
                ed.rep(t.s, t.e, "= %s(%s, " % ("vwadd" if t.t == "+=" else "vwsub", self.sf.src[T[s].s:T[i - 1].e]))
                ed.ins(T[e].s, ")", 6)
                self.u.count("overflow that may panic or wrap named vwadd, vwsub")
            if t.t in ("unwrap", "expect") and T[i - 1].t == "." and T[i + 1].t == "(" and self.u.may_panic:
                ed.rep(t.s, T[match_close(T, i + 1)].e, "vunwrap()")
                self.u.count("unwrap that may panic named vunwrap")
            i += 1

    def index_edits(self, ed, a, b):
        """E[i]  =>  (*vix(&E, i)), (*vixm(E, i)) on a write guard   (units with `//@mode maypanic`: a bad index ends in a panic)"""
        T = self.toks
        for i in range(a, b):
            if T[i].t != "[" or not (T[i - 1].k == "id" or T[i - 1].t in (")", "]")) or T[i - 1].t in ("mut", "return", "in", "else", "as"):
                continue
            c = match_close(T, i)
            if any(T[k].t in ("..", "..=") for k in range(i, c)):
                continue
            s = self.chain_start(i - 1)
            w = toks_eq(T, i - 4, [".", "write", "(", ")"])
            ed.ins(T[s].s, "(*vixm(" if w else "(*vix(&", -5 - i * 1e-7)
            ed.rep(T[i].s, T[i].e, ", ")
            ed.rep(T[c].s, T[c].e, "))")
            self.u.count("index that may panic named vix")

    def fornext_edits(self, ed, loops):
        """for P in E { .. }  =>  let mut vi__N = E; loop { let P = match vi__N.next() { Some(x) => x, None => break }; .. }"""
        T, src = self.toks, self.sf.src
        for n in self.spec.fornext:
            if n > len(loops) or loops[n - 1][0] != "for":
                raise ExtractError("loop %d of %s is not a for loop any more" % (n, self.spec.path))
            kind, li, lin, lo, lc = loops[n - 1]
            ed.rep(T[li].s, T[lo - 1].e, "let mut vi__%d = %s; loop" % (n, src[T[lin + 1].s:T[lo - 1].e]))
            ed.ins(T[lo].e, " let %s = match vi__%d.next() { Some(x__) => x__, None => break };" % (src[T[li + 1].s:T[lin - 1].e], n), -15)
            self.u.count("for over an iterator of the crate written as loop and next")

    def subs_edits(self, ed, a, b):
        T = self.toks
        for opt, old, new in self.u.subs + self.spec.subs:
            pat = [x.t for x in lex(old)]
            if self.ren:
                pat = [self.ren.get(x, x) if not (k and pat[k - 1] in ("$", ".")) else x for k, x in enumerate(pat)]
            new = self.ann(new)
            n = 0
            i = a
            while i < b:
                if self.match_pat(i, pat, b):
                    e = self.match_pat(i, pat, b)
                    binds = self.binds
                    txt = new
                    for kk, vv in binds.items():
                        txt = txt.replace("$" + kk, vv)
                    ed.rep(T[i].s, T[e - 1].e, txt)
                    n += 1
                    i = e
                else:
                    i += 1
            if n == 0 and not opt:
                raise ExtractError("substitution does not match in %s: %s" % (self.spec.path, old))
            if n:
                self.u.count("substitution `%s` => `%s`" % (old, new), n)

    def match_pat(self, i, pat, b):
        """pattern tokens; `$x` (two tokens '$','x' lexed as '$' 'x') matches a balanced run up to the next pattern token"""
        T = self.toks
        self.binds = {}
        k = 0
        j = i
        while k < len(pat):
            if j >= b:
                return None
            if pat[k] == "$":
                name = pat[k + 1]
                nxt = pat[k + 2] if k + 2 < len(pat) else None
                s = j
                while j < b and T[j].t != nxt:
                    if T[j].t in ("(", "[", "{"):
                        j = match_close(T, j)
                    elif T[j].t in (")", "]", "}", ";"):
                        return None
                    j += 1
                if j >= b or j == s:
                    return None
                self.binds[name] = self.sf.src[T[s].s:T[j - 1].e]
                k += 2
                continue
            if T[j].t != pat[k]:
                return None
            j += 1
            k += 1
        return j

    def guard_edits(self, ed, a, b):
        """drop elaboration of write guards (units with `//@mode conc`):
           let mut g = E.write();            => let g__l = &E; let mut g = g__l.write(); ... vw_release(g__l, g) at every exit of the scope
           E.write()[..].. ;  (temporary)     => { let w__l = &E; let w__g = w__l.write(); (w__g)[..]..; vw_release(w__l, w__g); }"""
        T, src = self.toks, self.sf.src
        i = a
        n = 0
        while i < b:
            if T[i].t == "write" and T[i - 1].t == "." and T[i + 1].t == "(" and T[i + 2].t == ")":
                n += 1
                # statement start
                s = i - 2
                while T[s].t not in (";", "{", "}"):
                    if T[s].t in (")", "]"):
                        d = 1
                        while d:
                            s -= 1
                            if T[s].t in (")", "]"):
                                d += 1
                            elif T[s].t in ("(", "["):
                                d -= 1
                    s -= 1
                s += 1
                if T[s].t == "let":
                    k = s + 1
                    if T[k].t == "mut":
                        k += 1
                    name = T[k].t
                    eq = k
                    while T[eq].t != "=":
                        eq += 1
                    g = "gl__%d" % n
                    ha = "Tracked(hist__)" if self.u.ghostargs else ""
                    if T[i + 3].t != ";":
                        # let x = &mut E.write()[..]; the guard lives as long as x
                        q = i + 3
                        while T[q].t == "[":
                            q = match_close(T, q) + 1
                        if T[eq + 1].t != "&" or T[q].t != ";":
                            raise ExtractError("write guard of unsupported form in " + self.spec.path)
                        r = eq + 3 if T[eq + 2].t == "mut" else eq + 2
                        name = "lg__%d" % n
                        ed.ins(T[s].s, "let %s = &%s; let %s = %s.write%s(%s);%s " % (g, src[T[r].s:T[i - 2].e], name, g, "::<T>" if ha else "", ha, " let ghost go__%d = *%s;" % (n, name) if ha else ""), -8)
                        ed.rep(T[r].s, T[i + 2].e, name)
                    else:
                        ed.rep(T[s].s, T[i + 3].e, "let %s = &%s; let %s = %s.write%s(%s);%s" % (g, src[T[eq + 1].s:T[i - 2].e], name, g, "::<T>" if ha else "", ha, " let ghost go__%d = *%s;" % (n, name) if ha else ""))
                    rel = "vw_release%s(%s, %s%s);" % ("::<T, _>" if ha else "", g, name, ", Ghost(go__%d), %s" % (n, ha) if ha else "")
                    # enclosing block
                    d = 0
                    o = s
                    while True:
                        o -= 1
                        if T[o].t == "}":
                            d += 1
                        elif T[o].t == "{":
                            if d == 0:
                                break
                            d -= 1
                    c = match_close(T, o)
                    # explicit drop(name)
                    dropped = False
                    k2 = i + 3
                    while k2 < c:
                        if T[k2].t == "drop" and toks_eq(T, k2, ["drop", "(", name, ")"]):
                            ed.rep(T[k2].s, T[k2 + 3].e, rel[:-1])
                            dropped = True
                        if not dropped and T[k2].k == "id" and T[k2].t in ("return", "continue", "break"):
                            # leaves this scope?
                            if T[k2].t == "return" or not self.inside_inner_loop(o, c, k2):
                                if T[k2].t == "return" and T[k2 + 1].t != ";":
                                    raise ExtractError("return with a value under a write guard")
                                if k2 in self.conts:
                                    ed.ins(T[k2].s, rel + " ", 0)
                                else:
                                    ed.rep(T[k2].s, T[k2].e, "{ %s %s; }" % (rel, T[k2].t))
                        if T[k2].t == "?":
                            raise ExtractError("`?` under a write guard")
                        k2 += 1
                    if not dropped:
                        # last statement must end in ; or be a block statement
                        last = T[c - 1].t
                        if last not in (";", "}"):
                            raise ExtractError("value-producing block under a write guard")
                        ed.ins(T[c].s, "; " + rel, 5)
                elif T[s].t == "if" and T[s + 1].t == "let":
                    # if let P = E.write().. { .. }: the guard lives to the end of the statement
                    o = i
                    while T[o].t != "{":
                        if T[o].t in ("(", "["):
                            o = match_close(T, o)
                        o += 1
                    c = match_close(T, o)
                    if T[c + 1].t == "else" or any(T[z].t in ("return", "break", "continue", "?") for z in range(o, c)):
                        raise ExtractError("write guard in an `if let` of unsupported form in " + self.spec.path)
                    eq = s
                    while T[eq].t != "=":
                        eq += 1
                    ha = "Tracked(hist__)" if self.u.ghostargs else ""
                    ed.ins(T[s].s, "{ let gl__%d = &%s; let w__g%d = gl__%d.write%s(%s); %s" % (n, src[T[eq + 1].s:T[i - 2].e], n, n, "::<T>" if ha else "", ha, "let ghost go__%d = *w__g%d; " % (n, n) if ha else ""), -8)
                    ed.rep(T[eq + 1].s, T[i + 2].e, "w__g%d" % n)
                    ed.ins(T[c].e, " vw_release%s(gl__%d, w__g%d%s); }" % ("::<T, _>" if ha else "", n, n, ", Ghost(go__%d), %s" % (n, ha) if ha else ""), 3)
                elif T[s].t == "drop" and T[s + 1].t == "(" and match_close(T, s + 1) == i + 3 and T[i + 4].t == ";":
                    # drop(E.write()); takes the lock and gives it back
                    ha = "Tracked(hist__)" if self.u.ghostargs else ""
                    ed.rep(T[s].s, T[i + 3].e, "{ let gl__%d = &%s; let w__g%d = gl__%d.write%s(%s); %svw_release%s(gl__%d, w__g%d%s); }" % (n, src[T[s + 2].s:T[i - 2].e], n, n, "::<T>" if ha else "", ha, "let ghost go__%d = *w__g%d; " % (n, n) if ha else "", "::<T, _>" if ha else "", n, n, ", Ghost(go__%d), %s" % (n, ha) if ha else ""))
                else:
                    e = i
                    while T[e].t != ";":
                        if T[e].t in ("(", "[", "{"):
                            e = match_close(T, e)
                        e += 1
                        if T[e].t == "}":
                            raise ExtractError("write guard temporary of unsupported form in " + self.spec.path)
                    # receiver of .write()
                    r = i - 2
                    while T[r].t not in ("(", ",", "=", ";", "{", "}", "*", "&", "!"):
                        if T[r].t in (")", "]"):
                            d = 1
                            while d:
                                r -= 1
                                if T[r].t in (")", "]"):
                                    d += 1
                                elif T[r].t in ("(", "["):
                                    d -= 1
                        r -= 1
                    r += 1
                    ha = "Tracked(hist__)" if self.u.ghostargs else ""
                    ed.ins(T[s].s, "; { let gl__%d = &%s; let w__g%d = gl__%d.write%s(%s); %s" % (n, src[T[r].s:T[i - 2].e], n, n, "::<T>" if ha else "", ha, "let ghost go__%d = *w__g%d; " % (n, n) if ha else ""), -8)
                    ed.rep(T[r].s, T[i + 2].e, "w__g%d" % n)
                    ed.ins(T[e].e, " vw_release%s(gl__%d, w__g%d%s); }" % ("::<T, _>" if ha else "", n, n, ", Ghost(go__%d), %s" % (n, ha) if ha else ""), 3)
                self.u.count("write-guard drop made explicit")
            i += 1

    def continue_edits(self, ed, bo, bc):
        """in a for loop:  if C { A; continue; } REST  =>  if C { A; } else { REST }"""
        T = self.toks
        self.conts = set()
        for n, (kind, li, lin, lo, lc) in enumerate(self.find_loops(bo + 1, bc), 1):
            if kind != "for" or n in self.spec.fornext:
                continue
            for k in range(lo + 1, lc):
                if T[k].t != "continue" or self.inside_inner_loop(lo, lc, k):
                    continue
                if T[k + 1].t != ";" or T[k + 2].t != "}" or T[k + 3].t == "else":
                    raise ExtractError("`continue` of unsupported form in " + self.spec.path)
                # the enclosing block of the if, up to the loop body: nothing may follow it
                e = self.block_end(k + 2)
                c = e
                while c != lc:
                    if T[c + 1].t != "}":
                        raise ExtractError("`continue` of unsupported form in " + self.spec.path)
                    c += 1
                ed.rep(T[k].s, T[k + 1].e, "")
                ed.ins(T[k + 2].e, " else {", 15)
                ed.ins(T[e].s, "}", 15)
                self.conts.add(k)
                self.u.count("`continue` in a for loop written as else")

    def block_end(self, k):
        """the `}` that closes the block in which the block closed at k stands"""
        T = self.toks
        k += 1
        while T[k].t != "}":
            if T[k].t in ("(", "[", "{"):
                k = match_close(T, k)
            k += 1
        return k

    def ghostarg_edits(self, ed, bo, bc):
        """the ghost argument of the functions named by //@ghostarg: never compiled, carries what the thread knows"""
        T, ga = self.toks, self.u.ghostargs
        if not ga:
            return
        it = self.item
        nm = T[it.kw + 1].t
        q = self.spec.path.split()[-1]
        if q in ga:
            nm = q
        if nm in ga:
            p, e = it.params
            ed.ins(T[e].s, "%sTracked(hist__): Tracked<%s>" % ("" if T[e - 1].t in (",", "(") else ", ", ga[nm] or self.u.ghosttype), 20)
        for i in range(bo, bc):
            qual = ""
            if T[i].k == "id" and T[i - 1].t == "::":
                k = i - 2
                if T[k].t == ">":
                    while T[k].t != "<":
                        k -= 1
                    k -= 2
                qual = T[k].t + "::" + T[i].t
            if T[i].k == "id" and (T[i].t in ga or qual in ga) and (T[i - 1].t in (".", "::") or T[i].t in self.u.lifted and T[i - 1].t != "fn") and T[i + 1].t == "(":
                e = match_close(T, i + 1)
                if T[i].t in ("read", "write") and e != i + 2:
                    continue
                if T[i].t == "insert" and T[i - 2].t != "self":
                    continue
                if T[i].t in ("read", "write"):
                    ed.ins(T[i].e, "::<T>", 19)
                ed.ins(T[e].s, "%sTracked(hist__)" % ("" if T[e - 1].t in (",", "(") else ", "), 20)
                self.u.count("ghost argument passed")

    def inside_inner_loop(self, o, c, k):
        for kind, i, _, j, e in self.find_loops(o + 1, c):
            if j < k < e:
                return True
        return False

    def render(self):
        sp, T, src, it = self.spec, self.toks, self.sf.src, self.item
        ed = Edits()
        if it.body is None:
            raise ExtractError("no body: " + sp.path)
        bo, bc = it.body
        self.common_edits(ed, it.kw, bc)
        self.subs_edits(ed, it.kw, bc)
        self.collect_edits(ed, bo + 1, bc)
        self.any_edits(ed, bo + 1, bc)
        self.par_edits(ed, bo + 1, bc)
        self.sort_edits(ed, bo + 1, bc)
        self.continue_edits(ed, bo, bc)
        self.enumerate_edits(ed, bo, bc)
        if self.u.io:
            self.io_edits(ed, bo, bc)
        if self.u.may_panic:
            self.index_edits(ed, bo + 1, bc)
        if self.u.conc:
            self.guard_edits(ed, bo, bc)
        self.ghostarg_edits(ed, bo, bc)
        # functions inside this one that have their own contract
        for k in range(bo + 1, bc):
            if T[k].t == "fn" and T[k + 1].t in self.u.lifted:
                e = k
                while T[e].t != "{":
                    e += 1
                ed.rep(T[k].s, T[match_close(T, e)].e, "")
        # signature
        i = it.params[1] + 1
        if T[i].t == "->":
            j = i + 1
            while j < bo and T[j].t != "where":
                if T[j].t == "<":
                    j = skip_generics(T, j)
                    continue
                if T[j].t in ("(", "["):
                    j = match_close(T, j)
                j += 1
            ed.ins(T[i + 1].s, "(%s: " % (sp.ret or "ret__"), -10)
            ed.ins(T[j - 1].e, ")", 10)
        if "name" in sp.opts:
            ed.rep(T[it.kw + 1].s, T[it.kw + 1].e, sp.opts["name"])
        if sp.spec.strip():
            ed.ins(T[bo].s, "\n" + self.ann(sp.spec) + "\n", -10)
        canary = self.u.canary
        if canary:
            ed.ins(T[bo].e, " /*CANARY fn*/ assert(false);\n", -20)
        loops = self.find_loops(bo + 1, bc)
        for n in sp.loops:
            if n > len(loops):
                raise ExtractError("loop %d of %s does not exist any more" % (n, sp.path))
        if len(loops) != sp.opts.get("nloops", len(sp.loops)) and sp.loops:
            raise ExtractError("%s has %d loops, the contract annotates %d" % (sp.path, len(loops), len(sp.loops)))
        self.fornext_edits(ed, loops)
        for n, (kind, li, lin, lo, lc) in enumerate(loops, 1):
            if n in sp.loops:
                itn, txt = sp.loops[n]
                if kind == "for" and n not in sp.fornext:
                    ed.ins(T[lin].e, " %s: " % (itn or "it__%d" % n), -10)
                ed.ins(T[lo].s, "\n" + self.ann(txt) + "\n", -10)
            if canary and n in sp.loops and not sp.opts.get("nocanary%d" % n):
                ed.ins(T[lo].e, " /*CANARY loop*/ assert(false);\n", -20)
        for where, txt in sp.at:
            w = where.split()
            txt = "\n" + self.ann(txt) + "\n"
            if w[0] == "start":
                ed.ins(T[bo].e, txt, -10)
            elif w[0] in ("par-start", "par-end", "par-after"):
                pass
            elif w[0] == "end":
                ed.ins(T[bc].s, txt, 10)
            elif w[0] == "tail":
                # ghost text that sees the value the function ends with, under the name tail__
                k = self.tail_start(bo, bc)
                ed.ins(T[k].s, "let tail__ = ", -4)
                ed.ins(T[bc - 1].e, ";" + txt + "tail__\n", 12)
            elif w[0] == "before":
                # before the statement that contains the n-th occurrence of a token text: `before N text`
                k = self.find_nth(w[2:], int(w[1]), bo, bc)
                ed.ins(T[self.stmt_start(k)].s, txt, -2)
            elif w[0] == "after":
                k = self.find_nth(w[2:], int(w[1]), bo, bc)
                ed.ins(T[self.stmt_end(k)].e, txt, 4)
            else:
                n = int(w[1])
                if n > len(loops):
                    raise ExtractError("loop %d of %s does not exist any more" % (n, sp.path))
                kind, li, lin, lo, lc = loops[n - 1]
                if w[0] == "loop-start":
                    ed.ins(T[lo].e, txt, -10)
                elif w[0] == "loop-end":
                    ed.ins(T[lc].s, txt, 10)
                elif w[0] == "before-loop":
                    ed.ins(T[self.stmt_start(li)].s, txt, -2)
                elif w[0] == "after-loop":
                    ed.ins(T[lc].e, txt, 10)
                else:
                    raise ExtractError("bad anchor " + where)
        cl = self.find_closures(bo + 1, bc)
        for n, hdr in sp.closures.items():
            if n > len(cl):
                raise ExtractError("closure %d of %s does not exist any more" % (n, sp.path))
            p1, p2, s, e = cl[n - 1]
            # parameter names come from the source
            names = [x.t for x in T[p1 + 1:p2] if x.k == "id" and x.t not in ("mut", "ref")] if p2 > p1 else []
            h = self.ann(hdr)
            for q, nm in enumerate(names):
                h = h.replace("$%d" % (q + 1), nm)
            ed.rep(T[p1].s, T[p2].e, h)
            if T[s].t != "{":
                ed.ins(T[s].s, "{ ", -9)
                ed.ins(T[e - 1].e, " }", 9)
        text = ed.apply(src, T[it.kw].s, T[bc].e)
        pre = "".join(a + "\n" for a in sp.attrs)
        if it.quals and any(q not in ("extern", "unsafe", "const") for q in it.quals):
            raise ExtractError("qualified fn")
        vis = sp.opts.get("vis", "pub")
        return pre + ("" if vis == "none" else "pub ") + strip_comments_keep(text)

    def tail_start(self, bo, bc):
        T = self.toks
        k = s = bo + 1
        while k < bc:
            t = T[k].t
            if t == ";":
                s = k + 1
            elif t in ("(", "["):
                k = match_close(T, k)
            elif t == "{":
                k = match_close(T, k)
                if k + 1 < bc and T[k + 1].t not in (".", "?", "else", ";", ")", ",", "==", "as") and T[s].t in ("if", "for", "while", "loop", "match", "{", "unsafe"):
                    s = k + 1
            k += 1
        if s >= bc:
            raise ExtractError("no final expression in " + self.spec.path)
        return s

    def find_nth(self, words, n, a, b):
        pat = [self.ren.get(x.t, x.t) for x in lex(" ".join(words))]
        c = 0
        for i in range(a, b):
            if toks_eq(self.toks, i, pat):
                c += 1
                if c == n:
                    return i
        raise ExtractError("anchor `%s` not found in %s" % (" ".join(words), self.spec.path))

    def stmt_start(self, k):
        T = self.toks
        s = k
        while True:
            p = T[s - 1].t
            if p in (";", "{", "}"):
                # `let x = if c {..} else {` etc. are not handled: the anchor is the innermost statement
                return s
            if p in (")", "]"):
                d, s = 1, s - 1
                while d:
                    s -= 1
                    if T[s].t in (")", "]"):
                        d += 1
                    elif T[s].t in ("(", "["):
                        d -= 1
                continue
            s -= 1

    def stmt_end(self, k):
        T = self.toks
        e = k
        while T[e].t != ";":
            if T[e].t in ("(", "[", "{"):
                e = match_close(T, e)
            elif T[e].t in (")", "]", "}"):
                raise ExtractError("no statement end for anchor in " + self.spec.path)
            e += 1
        return e


def strip_comments_keep(text):
    """drops comments of the source (they could hold directives) but keeps CANARY marks"""
    out, pos = [], 0
    for t in lex(text):
        gap = text[pos:t.s]
        marks = "".join(re.findall(r"/\*CANARY \w+\*/", gap))
        out.append(re.sub(r"//[^\n]*", "", re.sub(r"/\*.*?\*/", "", gap, flags=re.S)) + marks)
        out.append(t.t)
        pos = t.e
    return "".join(out)


class Unit:
    def __init__(self, name, defines=(), repo="/repo", verif="/verif", canary=False, baseline=None):
        self.name, self.repo, self.verif, self.canary = name, repo, verif, canary
        self.defines = set(defines)
        self.files = {}
        self.rules = {}
        self.fns = []        # (path, file, first line, last line)
        self.subs = []
        self.conc = self.io = self.may_panic = False
        self.ghostargs = {}
        self.lifted = set()
        self.ghosttype = "&mut Hist<'b, T>"
        self.fn_hashes = {}
        self.changed = []
        self.renames = {}
        self.baseline = baseline if baseline is not None else {}
        self.new_baseline = {}
        self.out = []
        self.labels = []

    def count(self, rule, n=1):
        self.rules[rule] = self.rules.get(rule, 0) + n

    def sf(self, rel):
        if rel not in self.files:
            self.files[rel] = SrcFile(os.path.join(self.repo, rel), known_fns(self.verif).get(rel))
            for r, n in self.files[rel].rules.items():
                self.count(r, n)
        return self.files[rel]

    def emit(self, text, label=None):
        for line in text.split("\n"):
            self.out.append(line)
            self.labels.append(label)

    def lines_of(self, fname):
        path = os.path.join(self.verif, "units", fname)
        res = []
        stack = []
        for ln in open(path, encoding="utf-8").read().split("\n"):
            s = ln.strip()
            if s.startswith("//@if "):
                names = [x.strip() for x in s[6:].split(",")]
                ok = any((x[1:] not in self.defines) if x.startswith("!") else (x in self.defines) for x in names)
                stack.append(ok)
                continue
            if s == "//@else":
                stack[-1] = not stack[-1]
                continue
            if s == "//@endif":
                stack.pop()
                continue
            if not all(stack):
                continue
            if s.startswith("//@foreach "):
                # //@foreach A,B : x,y z,w .. : the lines up to //@endfor once for each tuple, $A and $B replaced
                names, tuples = [x.strip() for x in s[11:].split(" : ")]
                each = (len(res), names.split(","), [t.split(",") for t in tuples.split()])
                continue
            if s == "//@endfor":
                at, names, tuples = each
                body, res = res[at:], res[:at]
                for t in tuples:
                    for x in body:
                        for a, b in zip(names, t):
                            x = x.replace("$" + a, b)
                        res.append(x)
                continue
            if s.startswith("//@include "):
                res += self.lines_of(s.split()[1])
                continue
            res.append(ln)
        if stack:
            raise ExtractError("unbalanced //@if in " + fname)
        return res

    def build(self):
        lines = self.lines_of(self.name + ".vrs")
        i = 0
        while i < len(lines):
            ln = lines[i]
            s = ln.strip()
            if s.startswith("//@fn "):
                i = self.do_fn(lines, i)
                continue
            if s.startswith("//@struct ") or s.startswith("//@enum "):
                w = s.split()
                self.emit_struct(w[1], w[2], w[0][3:], w[3:])
            elif s.startswith("//@type ") or s.startswith("//@const "):
                w = s.split()
                sf = self.sf(w[1])
                it = sf.find_item(w[0][3:], w[2])
                self.emit("pub " + strip_comments(sf.src[sf.toks[it.kw].s:sf.toks[it.b - 1].e]), "%s %s" % (w[0][3:], w[2]))
            elif s.startswith("//@ghostarg "):
                # NAME | NAME:TYPE : a ghost argument hist__ is appended to declaration and calls
                for w in s.split()[1:]:
                    nm, ty = re.match(r"((?:\w+::)*\w+)(?::(.*))?$", w).groups()
                    self.ghostargs[nm] = ty and ty.replace("~", " ")
            elif s.startswith("//@ghosttype "):
                self.ghosttype = s[len("//@ghosttype "):]
            elif s.startswith("//@mode "):
                w = s.split()[1:]
                self.conc, self.io, self.may_panic = "conc" in w, "io" in w, "maypanic" in w
            elif s.startswith("//@sub"):
                self.subs.append(parse_sub(s))
            elif s.startswith("//@"):
                raise ExtractError("unknown directive " + s)
            else:
                self.emit(ln)
            i += 1
        return "\n".join(self.out)

    def emit_struct(self, file, name, kind, opts):
        sf = self.sf(file)
        it = sf.find_item(kind, name)
        T, src = sf.toks, sf.src
        ed = Edits()
        a, b = it.kw, it.b
        if it.grp:
            g0, g1 = it.grp
            i = g0 + 1
            depth_start = True
            while i < g1:
                if T[i].t == "#" and T[i + 1].t == "[":
                    c = match_close(T, i + 1)
                    ed.rep(T[i].s, T[c].e, "")
                    i = c + 1
                    continue
                if depth_start:
                    if T[i].t == "pub":
                        if T[i + 1].t == "(":
                            c = match_close(T, i + 1)
                            ed.rep(T[i].s, T[c].e, "pub")
                            i = c
                    elif kind == "struct":
                        ed.ins(T[i].s, "pub ")
                    depth_start = False
                if T[i].t == "<":
                    i = skip_generics(T, i)
                    continue
                if T[i].t in ("(", "[", "{"):
                    i = match_close(T, i)
                if T[i].t == ",":
                    depth_start = True
                i += 1
        for opt, old, new in self.subs:
            pat = [x.t for x in lex(old)]
            for i in range(a, b):
                if toks_eq(T, i, pat):
                    ed.rep(T[i].s, T[i + len(pat) - 1].e, new)
        attrs = [o for o in opts if o.startswith("#")]
        self.emit("".join(x + "\n" for x in attrs) + "pub " + strip_comments(ed.apply(src, T[a].s, T[b - 1].e)), "%s %s" % (kind, name))

    def do_fn(self, lines, i):
        w = lines[i].strip()[6:].strip().split(" ", 1)
        opts = {}
        path = w[1].strip()
        m = re.match(r"(.*?)\s+\[(.*)\]$", path)
        if m:
            path = m.group(1)
            for kv in m.group(2).split():
                k, _, v = kv.partition("=")
                opts[k] = v or True
        sp = FnSpec(w[0], path)
        if "nloops" in opts:
            opts["nloops"] = int(opts["nloops"])
        sp.opts = opts
        i += 1
        cur = None

        def flush(cur, buf):
            txt = "\n".join(buf)
            if cur is None:
                if txt.strip():
                    raise ExtractError("text outside a section in " + path)
            elif cur[0] == "spec":
                sp.spec += txt
            elif cur[0] == "loop":
                sp.loops[cur[1]] = (cur[2], txt)
            elif cur[0] == "par":
                sp.pars[cur[1]] = txt
            elif cur[0] == "closure":
                sp.closures[cur[1]] = cur[2] + " " + txt
            elif cur[0] == "at":
                sp.at.append((cur[1], txt))
        buf = []
        while True:
            if i >= len(lines):
                raise ExtractError("missing //@endfn for " + path)
            s = lines[i].strip()
            if s.startswith("//@"):
                flush(cur, buf)
                cur, buf = None, []
                d, _, rest = s[3:].partition(" ")
                rest = rest.strip()
                if d == "endfn":
                    break
                elif d == "ret":
                    sp.ret = rest
                elif d == "attr":
                    sp.attrs.append(rest)
                elif d == "spec":
                    cur = ("spec",)
                elif d == "loop":
                    p = rest.split()
                    cur = ("loop", int(p[0]), p[1] if len(p) > 1 else None)
                elif d == "par":
                    cur = ("par", int(rest))
                elif d == "closure":
                    n, _, h = rest.partition(" ")
                    cur = ("closure", int(n), h)
                elif d == "at":
                    cur = ("at", rest)
                elif d == "fornext":
                    sp.fornext.append(int(rest))
                elif d in ("sub", "sub?"):
                    sp.subs.append(parse_sub(s))
                else:
                    raise ExtractError("unknown directive " + s)
            else:
                buf.append(lines[i])
            i += 1
        sf = self.sf(sp.file)
        it = sf.find_fn(sp.path)
        if "/" in sp.path:
            self.lifted.add(sp.path.split("/")[1])
        texts = [t.t for t in sf.toks[it.kw:it.b]]
        kinds = [t.k for t in sf.toks[it.kw:it.b]]
        key = sp.file + "::" + sp.path
        self.new_baseline[key] = texts
        h = hashlib.sha256("\x00".join(texts).encode()).hexdigest()[:16]
        self.fn_hashes[key] = h
        ren = {}
        old = self.baseline.get(key)
        if old is not None and old != texts:
            self.changed.append(key)
            ren = rename_map(old, texts, kinds)
            if ren:
                self.renames[key] = ren
        first = len(self.out) + 1
        self.emit(FnText(self, sf, it, sp, ren).render(), key)
        self.fns.append((key, first, len(self.out)))
        return i + 1


def known_fns(verif):
    """names of the functions of the annotated tree, per file (baseline/fns.json)"""
    if verif not in KNOWN:
        try:
            with open(os.path.join(verif, "baseline", "fns.json")) as f:
                KNOWN[verif] = {k: set(v) for k, v in json.load(f).items()}
        except OSError:
            KNOWN[verif] = {}
    return KNOWN[verif]


KNOWN = {}


def parse_sub(s):
    m = re.match(r"//@sub(\??)\s+(.*?)\s+=>\s?(.*)$", s)
    if not m:
        raise ExtractError("bad sub " + s)
    return (m.group(1) == "?", m.group(2).strip("`"), m.group(3).strip().strip("`"))


PRIM = set("u8 u16 u32 u64 u128 usize i8 i16 i32 i64 i128 isize f32 f64 bool char str self super crate".split())


def locals_of(ts):
    """names a function binds: never types, fields, methods, functions or modules"""
    res, no = set(), set()
    pipes = False
    for i, t in enumerate(ts):
        if not re.match(r"^[a-z_]\w*$", t) or t in PRIM:
            continue
        p = ts[i - 1] if i else ""
        n = ts[i + 1] if i + 1 < len(ts) else ""
        if p in ("let", "mut", "for", "|", "ref") or (p in ("(", ",", "&") and n in (":", ",", ")", "|", "@")):
            res.add(t)
        if p in (".", "::", "fn") or n in ("::", "!") or (n == "(" and p not in ("|",)):
            no.add(t)
    return res - no


def rename_map(old, new, kinds):
    ids = re.compile(r"^[A-Za-z_]\w*$")
    so, sn = set(old), set(new)
    pairs = {}
    bad = set()
    # align with disappearing/appearing identifiers normalised
    gone = {x for x in so - sn if ids.match(x)}
    came = {x for x in sn - so if ids.match(x)}
    if not gone or not came:
        return {}
    no = ["\x01" if x in gone else x for x in old]
    nn = ["\x01" if x in came else x for x in new]
    sm = difflib.SequenceMatcher(None, no, nn, autojunk=False)
    for tag, a0, a1, b0, b1 in sm.get_opcodes():
        if tag != "equal":
            continue
        for k in range(a1 - a0):
            x, y = old[a0 + k], new[b0 + k]
            if x != y:
                if pairs.setdefault(x, y) != y:
                    bad.add(x)
    vals = list(pairs.values())
    lo, ln = locals_of(old), locals_of(new)
    return {k: v for k, v in pairs.items() if k not in bad and vals.count(v) == 1 and k in lo and v in ln}
