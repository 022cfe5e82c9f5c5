#!/usr/bin/env python3
"""bugs.py [ID...]: applies each planted bug to /repo, runs its property's quick check, undoes it."""
import json, os, subprocess, sys, time
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = {c["property"] for c in json.load(open(os.path.join(V, "MANIFEST.json")))["checks"]}
ids = sys.argv[1:] or sorted(os.listdir(os.path.join(V, "seeded")))
assert not subprocess.run("git -C /repo status --porcelain", shell=True, capture_output=True, text=True).stdout
for i in ids:
    p = json.load(open(os.path.join(V, "seeded", i, "meta.json")))["property"]
    if p not in props:
        continue
    subprocess.run(["git", "-C", "/repo", "apply", os.path.join(V, "seeded", i, "patch.diff")], check=True)
    t = time.time()
    try:
        r = subprocess.run(["python3", os.path.join(V, "check.py"), p, "quick"], capture_output=True, text=True, env=dict(os.environ, VERIF_SEED="1"))
    finally:
        subprocess.run("git -C /repo checkout -q -- .", shell=True)
    v = [l for l in r.stdout.splitlines() if l.startswith(("VIOLATION", "unit", "replay", "NOT PROVED"))]
    print(i, "CAUGHT" if r.returncode == 1 else "MISSED %d" % r.returncode, "%.0f s" % (time.time() - t), "; ".join(x[:150] for x in v), r.stderr[-300:], flush=True)
