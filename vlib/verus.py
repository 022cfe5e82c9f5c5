"""Builds a unit from the current source, runs Verus on it and reads the answer."""
import json
import os
import re
import signal
import subprocess
import time
from rust import ExtractError
from unit import Unit
from locks import Locks
from reads import Reads


MIR = {"locks": Locks, "reads": Reads}


def make(name, defs, base, canary=False):
    if name in MIR:
        return MIR[name](name, defs, verif=VERIF, baseline=base.get("tokens", {}), canary=canary)
    return Unit(name, defs, verif=VERIF, baseline=base.get("tokens", {}), canary=canary)

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
OBLIGATION = [
    "postcondition not satisfied", "precondition not satisfied", "invariant not satisfied", "assertion failed",
    "possible arithmetic underflow/overflow", "possible division by zero", "loop ensures not satisfied", "unable to prove",
    "decreases not satisfied", "possible bit shift underflow/overflow", "constructed value may fail to meet its declared type invariant",
    "may panic", "assert_by_contradiction", "possible truncation", "index out of bounds",
]
LIMIT = ["Resource limit", "rlimit", "SMT solver", "timed out"]


def baseline_path(name, defs):
    return os.path.join(VERIF, "baseline", "%s_%s.json" % (name, "_".join(sorted(defs))))


RUNNING = []


def kill(p):
    """ends a verifier this program started, with its solvers (its own session)"""
    try:
        os.killpg(p.pid, signal.SIGKILL)
    except ProcessLookupError:
        pass


STOP = []


def kill_all():
    STOP.append(1)
    for p in list(RUNNING):
        kill(p)


class Result:
    pass


def run_verus(path, extra, timeout, logdir=None):
    cmd = ["verus", path, "--crate-type", "lib", "--triggers-mode", "silent", "--multiple-errors", "30" if "_canary" in os.path.basename(path) else "1", "--output-json", "--time-expanded", "--num-threads", "4"] + extra
    if logdir:
        cmd += ["--log", "air", "--log-dir", logdir]
    cmd += ["--", "--error-format=json"]
    t = time.time()
    if STOP:
        return "", "stopped", 124, 0.0, " ".join(cmd)
    p = subprocess.Popen(cmd, stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, cwd=os.path.dirname(path), start_new_session=True)
    RUNNING.append(p)
    try:
        out, err = p.communicate(timeout=timeout)
        rc = p.returncode
    except subprocess.TimeoutExpired:
        kill(p)
        p.communicate()
        out, err, rc = "", "timed out", 124
    finally:
        RUNNING.remove(p)
    return out, err, rc, time.time() - t, " ".join(cmd)


def diagnostics(err):
    ds = []
    for line in err.split("\n"):
        if not line.startswith("{"):
            continue
        try:
            d = json.loads(line)
        except ValueError:
            continue
        if d.get("level") in ("error", "error: internal compiler error"):
            if d.get("message", "").startswith("aborting due to"):
                continue
            ds.append(d)
    return ds


def count_obligations(logdir):
    """assertions inside the queries Verus sends to the solver"""
    n = 0
    per = {}
    for f in os.listdir(logdir):
        if not f.endswith(".air"):
            continue
        inq, cur = 0, None
        for ln in open(os.path.join(logdir, f), encoding="utf-8", errors="replace"):
            s = ln.strip()
            if s.startswith(";; Function-Def"):
                cur = s.split()[-1].split("::")[-1]
            if s.startswith("(check-valid"):
                inq = 1
            elif s.startswith("(push)") or s.startswith("(pop)"):
                inq = 0
            if inq and (s == "(assert" or s.startswith("(assert ")):
                n += 1
                per[cur] = per.get(cur, 0) + 1
    return n, per


def scan_trust(text):
    """every assumption that is left in the unit, mechanically"""
    res = {"assume": 0, "admit": 0, "external_body": [], "axiom": []}
    lines = text.split("\n")
    for i, ln in enumerate(lines):
        if re.search(r"\bassume\s*\(", ln):
            res["assume"] += 1
        if re.search(r"\badmit\s*\(", ln):
            res["admit"] += 1
        m = re.search(r"axiom fn (\w+)", ln)
        if m:
            res["axiom"].append(m.group(1))
        if "external_body" in ln:
            for k in range(i + 1, min(i + 6, len(lines))):
                m = re.search(r"\b(?:fn|struct)\s+(\w+)", lines[k])
                if m:
                    res["external_body"].append(m.group(1))
                    break
    return res


def check_unit(name, defs, work, rlimit=None, timeout=600, canary=True, use_baseline=True, seed=None):
    """returns a Result with status proved | failed | tool"""
    r = Result()
    r.unit, r.defs = name, defs
    r.status, r.reason, r.failed = "tool", "", []
    r.obligations = r.verified = 0
    r.smt_ms = 0
    r.wall = 0.0
    r.fns, r.rules, r.changed, r.renames = [], {}, [], {}
    r.cmd = ""
    r.canaries = 0
    r.trust = {}
    r.raw = ""
    r.fn_times = {}
    base = {}
    bp = baseline_path(name, defs)
    if use_baseline and os.path.exists(bp):
        base = json.load(open(bp))
    r.base = base
    try:
        u = make(name, defs, base)
        text = u.build()
    except ExtractError as e:
        r.reason = "lost anchor: %s" % e
        return r
    except Exception as e:  # a source this extractor cannot read
        r.reason = "extractor error: %s: %s" % (type(e).__name__, e)
        return r
    r.fns = [k for k, _, _ in u.fns]
    r.rules, r.changed, r.renames = u.rules, u.changed, u.renames
    r.new_baseline = u.new_baseline
    r.trust = scan_trust(text)
    tag = "%s_%s%s" % (name, "_".join(sorted(defs)), "" if seed is None else "_again")
    os.makedirs(work, exist_ok=True)
    path = os.path.join(work, "u_%s.rs" % tag)
    open(path, "w").write(text)
    log = os.path.join(work, "log_%s" % tag)
    extra = ["--rlimit", str(rlimit)] if rlimit else []
    if seed is not None:
        extra += ["--smt-option", "smt.random_seed=%d" % seed]
    out, err, rc, wall, r.cmd = run_verus(path, extra, timeout, log)
    r.wall = wall
    r.raw = err
    labels = u.labels
    ulines = text.split("\n")

    def where(d):
        sp = d.get("spans", [])
        prim = [s for s in sp if s.get("is_primary")] or sp
        lab = None
        # the function whose body is being checked is the one with the non-primary span, or the primary itself
        for s in sp:
            if os.path.basename(s["file_name"]) != os.path.basename(path):
                continue
            ln = s["line_start"] - 1
            if ln < len(labels) and labels[ln]:
                lab = labels[ln] if lab is None or not s.get("is_primary") else lab
        txt = []
        for s in sp:
            if os.path.basename(s["file_name"]) == os.path.basename(path) and s["line_start"] - 1 < len(ulines):
                txt.append((s.get("label") or "", ulines[s["line_start"] - 1].strip()))
            elif s.get("text"):
                txt.append((s.get("label") or "", s["text"][0]["text"].strip()))
        return lab or "(ghost code)", txt

    try:
        js = json.loads(out)
    except ValueError:
        js = {}
    ds = diagnostics(err)
    vr = js.get("verification-results", {})
    r.verified = vr.get("verified", 0)
    for m in js.get("times-ms", {}).get("smt", {}).get("smt-run-module-times", []):
        for f in m.get("function-breakdown", []):
            r.fn_times[f["function"].split("::", 1)[-1]] = f.get("time-micros", 0) / 1000.0
    r.smt_ms = js.get("times-ms", {}).get("smt", {}).get("total", 0)
    if os.path.isdir(log):
        r.obligations, r.per_fn = count_obligations(log)
        subprocess.run(["rm", "-rf", log])
    other = []
    for d in ds:
        m = d["message"]
        if any(x in m for x in LIMIT):
            other.append("solver limit: " + m)
        elif d.get("code") is None and any(x in m for x in OBLIGATION):
            lab, txt = where(d)
            r.failed.append({"function": lab, "obligation": m, "at": txt})
        else:
            lab, txt = where(d)
            other.append("%s [%s] %s" % (m.split("\n")[0], lab, txt[:1]))
    if rc == 0 and vr.get("success") and not ds:
        if r.trust["assume"] or r.trust["admit"]:
            r.reason = "assume/admit in the unit"
            return r
        if base and (r.verified < (base.get("verified", 0) * 0.6 if name in MIR else base.get("verified", 0) - 3) or r.obligations < base.get("obligations", 1) // 2):
            r.reason = "obligations vanished: %d functions, %d obligations (baseline %d, %d)" % (r.verified, r.obligations, base["verified"], base["obligations"])
            return r
        if r.verified == 0 or r.obligations == 0:
            r.reason = "no obligation generated"
            return r
        if canary:
            bad = run_canary(name, defs, work, base, r)
            if bad:
                r.reason = bad
                return r
        r.status = "proved"
        return r
    if other:
        r.reason = "; ".join(other[:3])
        # obligations that fail next to a limit are still failed obligations only if no compile error
        if any(not o.startswith("solver limit") for o in other) or not r.failed:
            r.status = "tool"
            return r
    if r.failed:
        r.status = "failed"
        r.reason = "%d obligation(s) failed" % len(r.failed)
    else:
        r.reason = r.reason or ("verus ended with %s: %s" % (rc, err[-400:]))
    return r


def run_canary(name, defs, work, base, r):
    """every contract must be satisfiable: assert(false) at each function and loop start has to fail"""
    u = make(name, defs, base, canary=True)
    text = u.build()
    text = text if name in MIR else re.sub(r"(/\*CANARY fn\*/\s*assert\(false\);)((?:\s*hide\([\w:]+\);)+)", r"\2 \1", text)
    tag = "%s_%s_canary" % (name, "_".join(sorted(defs)))
    path = os.path.join(work, "u_%s.rs" % tag)
    open(path, "w").write(text)
    want = {i + 1 for i, ln in enumerate(text.split("\n")) if "/*CANARY" in ln}
    out, err, rc, wall, _ = run_verus(path, ["--rlimit", "60"], 600)
    got = set()
    for d in diagnostics(err):
        if "assertion failed" in d["message"]:
            for s in d["spans"]:
                if s.get("is_primary"):
                    got.add(s["line_start"])
    r.canaries = len(want)
    r.wall += wall
    missing = want - got
    if missing:
        return "vacuous contract: unreachable at unit line(s) %s (%s)" % (sorted(missing)[:5], [u.labels[x - 1] for x in sorted(missing)[:5]])
    return None
