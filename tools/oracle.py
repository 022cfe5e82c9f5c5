#!/usr/bin/env python3
"""oracle.py [ID...]: which planted bugs the replay alone finds on the real code (no verifier), one run of 60 s each."""
import json, os, subprocess, sys, time
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
ids = sys.argv[1:] or sorted(os.listdir(os.path.join(V, "seeded")))
os.makedirs("/tmp/sc", exist_ok=True)
for i in ids:
    p = json.load(open(os.path.join(V, "seeded", i, "meta.json")))["property"]
    subprocess.run(["git", "-C", "/repo", "apply", os.path.join(V, "seeded", i, "patch.diff")], check=True)
    t = time.time()
    try:
        b = subprocess.run(["sh", os.path.join(V, "replay/build.sh")], capture_output=True)
        r = subprocess.run([os.path.join(V, "build/replay/debug/replay"), p, "--seed", "1", "--budget-ms", "60000", "--out", "/tmp/sc/o.json"], stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL, env=dict(os.environ, VREPLAY_SCRATCH="/tmp/sc", VREPLAY_NOTE="/tmp/sc/note"))
    finally:
        subprocess.run("git -C /repo checkout -q -- .", shell=True)
    try:
        o = json.load(open("/tmp/sc/o.json"))
    except Exception:
        o = {"status": "died"}
    print(i, o["status"], r.returncode, "%.0f s" % (time.time() - t), o.get("message", "")[:160], flush=True)
