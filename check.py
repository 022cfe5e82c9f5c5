#!/usr/bin/env python3
"""check.py PROPERTY [quick|thorough]: decides one property on /repo's current tree (see DESIGN.md)."""
import json
import os
import subprocess
import sys
import threading
import time

VERIF = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, os.path.join(VERIF, "vlib"))
sys.dont_write_bytecode = True
import verus  # noqa: E402
from props import PROPS, TRUSTED  # noqa: E402

BUILD = os.path.join(VERIF, "build")
# seconds after which no verifier runs any more
DEADLINE = 780


def build_replay():
    t = time.time()
    cmd = ["sh", os.path.join(VERIF, "replay", "build.sh")]
    try:
        p = subprocess.run(cmd, capture_output=True, text=True, timeout=600)
    except subprocess.TimeoutExpired:
        return None, "cargo build timed out", time.time() - t
    if p.returncode != 0:
        return None, p.stderr[-3000:], time.time() - t
    return os.path.join(BUILD, "replay", "debug", "replay"), "", time.time() - t


REPLAYS = []


def run_replay(binary, prop, seed, budget_ms, tag):
    out = os.path.join(BUILD, "replay_%s_%s.json" % (prop, tag))
    if os.path.exists(out):
        os.remove(out)
    scratch = os.path.join(BUILD, "scratch_%s_%s" % (prop, tag))
    os.makedirs(scratch, exist_ok=True)
    notef = os.path.join(scratch, "note.txt")
    env = dict(os.environ, VREPLAY_SCRATCH=scratch, RUST_BACKTRACE="0", VREPLAY_NOTE=notef)
    note = ""
    try:
        p = subprocess.Popen([binary, prop, "--seed", str(seed), "--budget-ms", str(budget_ms), "--out", out], env=env, stdout=subprocess.DEVNULL,
                             stderr=subprocess.PIPE, text=True)
        REPLAYS.append(p)
        try:
            err = p.communicate(timeout=budget_ms / 1000 + 240)[1][-2000:]
        except subprocess.TimeoutExpired:
            p.kill()
            p.communicate()
            raise
        finally:
            REPLAYS.remove(p)
        rc = p.returncode
        if os.path.exists(notef):
            note = open(notef, errors="replace").read()[:2000]
    except subprocess.TimeoutExpired:
        return {"status": "error", "message": "replay timed out"}
    finally:
        subprocess.run(["rm", "-rf", scratch])
    if os.path.exists(out):
        try:
            return json.load(open(out))
        except ValueError:
            pass
    # the process died (abort, signal): find the case again is the caller's business
    return {"status": "died", "message": "replay ended with %s while %s: %s" % (rc, note, err)}


def known(prop):
    """listed findings: lines `known: property=ID match=<text> :: description`"""
    res = []
    f = os.path.join(VERIF, "known_findings.txt")
    if os.path.exists(f):
        for ln in open(f):
            if ln.startswith("known: property=%s " % prop):
                m = ln.split("match=", 1)[1].split(" :: ", 1)
                res.append((m[0].strip(), m[1].strip()))
    return res


def main():
    prop = sys.argv[1]
    tier = sys.argv[2] if len(sys.argv) > 2 else os.environ.get("VERIF_TIER", "quick")
    seed = int(os.environ.get("VERIF_SEED", "1"))
    cfg = PROPS[prop]
    t0 = time.time()
    work = os.path.join(BUILD, "units_" + prop)
    os.makedirs(work, exist_ok=True)
    thorough = tier == "thorough"

    # the replay harness is built while the verifier runs
    built = {}

    def b():
        built["r"] = build_replay()
    th = threading.Thread(target=b)
    th.start()
    results = []
    lock = threading.Lock()

    def left():
        return max(20, DEADLINE - (time.time() - t0))

    def one(u):
        r = verus.check_unit(u[0], u[1], work, rlimit=cfg.get("rlimit"), timeout=min(420, left()))
        with lock:
            results.append(r)

    def again(r):
        # once more, with a larger limit and another solver seed: an obligation counts as failed when it fails twice
        r2 = verus.check_unit(r.unit, r.defs, work, rlimit=(cfg.get("rlimit") or 10) * 4, timeout=min(300, left()), seed=7)
        r2.retried = True
        if not (r2.status == "tool" and r.status == "failed"):
            with lock:
                results[results.index(r)] = r2
    ts = [threading.Thread(target=one, args=(u,)) for u in cfg["units"]]
    for t in ts:
        t.start()
    for t in ts:
        t.join()
    th.join()
    binary, berr, bwall = built["r"]
    second = [r for r in results if r.status == "failed" or (r.status == "tool" and "solver limit" in r.reason)]
    ts = [threading.Thread(target=again, args=(r,), daemon=True) for r in second]
    for t in ts:
        t.start()
    budget = cfg.get("replay_ms", 8000)
    if thorough:
        budget *= 12
    elif any(r.status != "proved" for r in results):
        budget = max(budget, cfg.get("search_ms", 60000))
    rep = None
    if cfg.get("replay") and binary:
        # a tree that is not proved is searched for a failing input by several runs at once
        seeds = [seed] if all(r.status == "proved" for r in results) and not thorough else [seed + 1000 * i for i in range(4)]
        reps = [None] * len(seeds)

        def search(i):
            reps[i] = run_replay(binary, prop, seeds[i], budget, "main%d" % i)
        rs = [threading.Thread(target=search, args=(i,), daemon=True) for i in range(len(seeds))]
        for t in rs:
            t.start()
        while any(t.is_alive() for t in rs):
            for t in rs:
                t.join(0.2)
            if any(x and x["status"] in ("fail", "died") for x in reps):
                break
        done = [x for x in reps if x]
        for p in list(REPLAYS):
            p.kill()
        for t in rs:
            t.join()
        rep = next((x for x in done if x["status"] in ("fail", "died")), None) or next((x for x in done if x["status"] != "error"), done[0])
        if rep["status"] == "ok":
            rep["evaluations"] = sum(x.get("evaluations", 0) for x in done)
            rep["distinct_nontrivial"] = sum(x.get("distinct_nontrivial", 0) for x in done)
    elif cfg.get("replay"):
        rep = {"status": "error", "message": "replay harness does not build: " + berr}
    if rep and rep["status"] in ("fail", "died"):
        verus.kill_all()
    for t in ts:
        t.join()
    results.sort(key=lambda r: r.unit)
    failed = [f for r in results if r.status == "failed" for f in r.failed]
    tool = [r for r in results if r.status == "tool"]
    proved = bool(results) and all(r.status == "proved" for r in results)

    kf = known(prop)
    listed = []
    viol = None
    rdir = os.path.join(BUILD, "replays")
    os.makedirs(rdir, exist_ok=True)
    rfile = os.path.join(rdir, prop + ".txt")
    if rep and rep["status"] in ("fail", "died"):
        hit = [d for m, d in kf if m in rep.get("message", "")]
        if hit:
            listed += hit
        else:
            viol = ("input", rep)
    if failed and viol is None:
        viol = ("obligation", failed)
    for m, d in kf:
        if d not in listed:
            listed.append(d)

    lines = []
    if viol:
        lines.append("property %s violated" % prop)
        if viol[0] == "input":
            lines.append("failing input, on the real code: %s" % viol[1].get("message"))
            if "case" in viol[1]:
                lines.append("replay: cd %s && sh replay/build.sh && build/replay/debug/replay %s --case %s" % (VERIF, prop, viol[1]["case"]))
        for r in results:
            lines.append("unit %s %s: %s %s" % (r.unit, r.defs, r.status, r.reason))
            for f in r.failed:
                lines.append("  failed obligation in %s: %s" % (f["function"], f["obligation"]))
                for lab, txt in f["at"]:
                    lines.append("      %s  %s" % (txt, ("<- " + lab) if lab else ""))
            if r.failed:
                lines.append("  verifier: %s" % r.cmd)
                for d in verus.diagnostics(r.raw):
                    lines.append("    | " + (d.get("rendered") or d["message"]).replace("\n", "\n    | "))
        open(rfile, "w").write("\n".join(lines) + "\n")

    obligations = sum(r.obligations for r in results)
    nfail = len(failed)
    discharged = sum((r.obligations if r.status == "proved" else max(0, r.obligations - len(r.failed)) if r.status == "failed" else 0) for r in results)
    if not proved and obligations == 0:
        obligations = sum(r.base.get("obligations", 0) for r in results)
    fns = sorted({k for r in results for k in r.fns})
    trust = sorted({"%s (external_body)" % x for r in results for x in r.trust.get("external_body", [])} | {"%s (axiom)" % x for r in results for x in r.trust.get("axiom", [])})
    cov = {
        "obligations": obligations,
        "discharged": discharged,
        "checker_cmd": "; ".join(r.cmd for r in results if r.cmd) or "none",
        "trusted_base": ["verus 0.2026.09.13.671956e with its Z3 4.12 back end and vstd", "the extraction of vlib/unit.py (rules and counts below)"] + trust,
        "back_end": "verus/z3",
        "solver_ms": sum(r.smt_ms for r in results),
        "verifier_wall_s": round(sum(r.wall for r in results), 2),
        "functions_under_contract": fns,
        "functions_verified": sum(r.verified for r in results),
        "vacuity_canaries_failing_as_required": sum(r.canaries for r in results),
        "assume_or_admit_in_units": sum(r.trust.get("assume", 0) + r.trust.get("admit", 0) for r in results if r.trust),
        "extraction_rules_applied": {("%s: %s" % (r.unit, k)): v for r in results for k, v in sorted(r.rules.items())},
        "functions_changed_since_baseline": sorted({c for r in results for c in r.changed}),
        "locals_renamed_since_baseline": {k: v for r in results for k, v in r.renames.items()},
        "units": [{"unit": r.unit, "defines": r.defs, "status": r.status, "reason": r.reason, "obligations": r.obligations, "functions_verified": r.verified, "solver_ms": r.smt_ms} for r in results],
        "not_proved_on_this_tree": [("%s: %s" % (r.unit, r.reason)) for r in tool],
        "slowest_functions_ms": dict(sorted(((k, round(v)) for r in results for k, v in r.fn_times.items()), key=lambda x: -x[1])[:5]),
    }
    if rep:
        cov["evaluations"] = rep.get("evaluations", 0)
        cov["distinct_nontrivial"] = rep.get("distinct_nontrivial", 0)
        cov["rule"] = "bounded validation of the assumed contracts, never counted as proof: " + cfg.get("rule", "random small cases judged by an oracle on the real code")
        cov["samples"] = rep.get("samples", [])
        cov["replay_status"] = rep["status"]
        if rep["status"] == "error":
            cov["replay_error"] = rep["message"][-500:]
    ev = {
        "property": prop,
        "tier": tier,
        "seed": seed,
        "level": cfg.get("level", "proof"),
        "coverage": cov,
        "assumptions": [TRUSTED[k] for k in cfg.get("assumes", [])] + cfg.get("assumptions", []),
        "wall_s": round(time.time() - t0, 2),
        "violations": 1 if viol else 0,
    }
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    json.dump(ev, open(os.path.join(VERIF, "evidence", prop + ".json"), "w"), indent=1)

    for d in listed:
        print("KNOWN-FINDING: property=%s %s" % (prop, d))
    for r in results:
        print("unit %s: %s %s, %d functions verified, %d obligations, %.1f s" % (r.unit, r.status, r.reason, r.verified, r.obligations, r.wall))
    if rep:
        print("replay: %s, %d cases (%d distinct non-trivial)" % (rep["status"], rep.get("evaluations", 0), rep.get("distinct_nontrivial", 0)))
    if viol:
        for ln in lines[:40]:
            print("  " + ln)
        print("VIOLATION property=%s replay=%s%s" % (prop, rfile, "" if viol[0] == "input" else " no-failing-input-found"))
        return 1
    if not proved and results:
        print("NOT PROVED on this tree (see evidence); only the bounded search above was done, it found no violation")
    return 0


sys.exit(main())
