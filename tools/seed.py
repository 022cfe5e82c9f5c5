#!/usr/bin/env python3
"""seed.py ID...: (re)makes /verif/seeded/ID/patch.diff from the edits in tools/seeds.py and checks in a scratch copy that the
bug builds, passes the stable tests, and that the demonstration fails with it and passes without it."""
import json, os, subprocess, sys, shutil
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(V, "tools"))
from seeds import SEEDS
DEMO = '''#!/bin/bash
. /opt/vp/env.sh
D=$(dirname "$(realpath "$0")")
W=$(mktemp -d)
trap 'rm -rf "$W"' EXIT
cargo build --offline -q --lib 2> "$W/build.txt" || { tail -c 3000 "$W/build.txt"; echo "the library does not build"; exit 2; }
L=$PWD/target/debug
rustc --edition 2021 -C opt-level=1 -A warnings -o "$W/demo" "$D/demo.rs" --extern hnsw_rs="$L/libhnsw_rs.rlib" -L dependency="$L/deps" || exit 2
cd "$W" && timeout 240 ./demo > out.txt 2> err.txt
rc=$?
tail -c 600 err.txt
echo "demo ended with $rc"
exit $rc
'''
W = "/tmp/seedw"
def sh(c, **k):
    return subprocess.run(c, shell=True, capture_output=True, text=True, **k)
if not os.path.exists(W):
    sh("cp -a /repo %s" % W)
sh("cd %s && git fetch -q /repo HEAD && git checkout -qf FETCH_HEAD" % W)
base = json.load(open("/opt/vp/BASELINE.json"))["stable"]
for sid in sys.argv[1:] or list(SEEDS):
    s = SEEDS[sid]
    d = os.path.join(V, "seeded", sid)
    os.makedirs(d, exist_ok=True)
    sh("cd %s && git checkout -qf ." % W)
    ok = True
    for f, old, new in s["edits"]:
        p = os.path.join(W, f)
        t = open(p).read()
        if t.count(old) != 1:
            print(sid, "edit matches", t.count(old), "times:", old[:60]); ok = False; break
        open(p, "w").write(t.replace(old, new))
    if not ok:
        continue
    open(os.path.join(d, "patch.diff"), "w").write(sh("cd %s && git diff" % W).stdout)
    json.dump({"property": s["property"], "needs": s["needs"], "what_it_breaks": s["breaks"]}, open(os.path.join(d, "meta.json"), "w"), indent=1)
    open(os.path.join(d, "demo.sh"), "w").write(DEMO); os.chmod(os.path.join(d, "demo.sh"), 0o755)
    open(os.path.join(d, "demo.rs"), "w").write(s["demo"])
    b = sh("cd %s && . /opt/vp/env.sh && cargo test --workspace --no-run --offline" % W)
    if b.returncode:
        print(sid, "DOES NOT BUILD", b.stderr[-1500:]); continue
    t = sh("cd %s && . /opt/vp/env.sh && cargo nextest run --workspace --no-fail-fast --offline --test-threads 8 --profile vp --tool-config-file vp:/opt/vp/nextest.toml -E 'not (binary_id(hnsw_rs) and test(/^hnswio::tests::/))'" % W, executable="/bin/bash")
    tests = "tests pass" if t.returncode == 0 else "TESTS FAIL " + t.stdout[-300:] + t.stderr[-1200:]
    p = sh("cd %s && bash %s/demo.sh" % (W, d))
    sh("cd %s && git checkout -qf ." % W)
    c = sh("cd %s && bash %s/demo.sh" % (W, d))
    print(sid, tests, "| patched demo", p.returncode, p.stdout[-200:].replace("\n", " "), "| clean demo", c.returncode, c.stdout[-300:].replace("\n", " ") if c.returncode else "", "OK" if t.returncode == 0 and p.returncode and not c.returncode and p.returncode != 2 else "BAD", flush=True)
