#!/usr/bin/env python3
"""Records, per unit, the tokens of the functions under contract on the unchanged tree (to map renamed locals)
and how many obligations they generate (so that vanishing obligations are noticed). Only run on the unchanged tree."""
import json
import os
import sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(V, "vlib"))
import verus
from props import PROPS
from norm import fn_paths
from rust import SrcFile
sel = sys.argv[1:]
fns = {}
for f in sorted(os.listdir("/repo/src")):
    if f.endswith(".rs"):
        sf = SrcFile("/repo/src/" + f)
        fns["src/" + f] = sorted(fn_paths(sf.items, sf.toks))
json.dump(fns, open(os.path.join(V, "baseline", "fns.json"), "w"), indent=0)
for p, c in PROPS.items():
    if sel and p not in sel:
        continue
    for name, defs in c["units"]:
        r = verus.check_unit(name, defs, os.path.join(V, "build", "base"), rlimit=c.get("rlimit"), use_baseline=False)
        print(p, name, r.status, r.reason, r.verified, r.obligations, r.canaries, "%.1fs" % r.wall)
        for f in r.failed:
            print("   ", f)
        if r.status == "proved":
            json.dump({"verified": r.verified, "obligations": r.obligations, "canaries": r.canaries, "tokens": r.new_baseline}, open(verus.baseline_path(name, defs), "w"))
