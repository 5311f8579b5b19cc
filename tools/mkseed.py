"""make a planted change: mkseed.py ID PROP FILE <<< JSON {edits:[[file,old,new],...], needs, breaks, demo}"""
import json, os, subprocess, sys, tempfile, shutil
def make(i, prop, edits, needs, breaks, demo_c=None, demo_sh=None, extra=None):
    V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
    d = os.path.join(V, "seeded", i); os.makedirs(d, exist_ok=True)
    t = tempfile.mkdtemp(dir="/tmp")
    subprocess.run(["git", "-C", "/repo", "worktree", "prune"]); subprocess.run(["git", "clone", "-q", "/repo", t + "/r"], check=True)
    for f, a, b in edits:
        p = os.path.join(t, "r", f); s = open(p, encoding="latin-1").read()
        assert s.count(a) == 1, (i, f, s.count(a), a)
        open(p, "w", encoding="latin-1").write(s.replace(a, b))
    diff = subprocess.run(["git", "-C", t + "/r", "diff"], capture_output=True).stdout
    open(d + "/patch.diff", "wb").write(diff)
    json.dump({"property": prop, "needs": needs, "what_it_breaks": breaks}, open(d + "/meta.json", "w"), indent=1)
    if demo_c:
        open(d + "/demo.c", "w").write(demo_c)
        demo_sh = """#!/bin/bash
# exit 0: the documented behaviour holds; built from the library sources in the current directory
d=$(cd "$(dirname "$0")" && pwd); w=$(mktemp -d) || exit 3
trap 'rm -rf "$w"' EXIT
gcc -std=gnu99 -O1 -w -DNDEBUG -DVL_DISABLE_OPENMP -DVL_DISABLE_AVX -msse2 -pthread -I. "$d/demo.c" vl/*.c -lm -lpthread -o "$w/demo" || exit 4
cd "$w" && timeout 100 ./demo
"""
    open(d + "/demo.sh", "w").write(demo_sh)
    for n, s in (extra or {}).items(): open(os.path.join(d, n), "w").write(s)
    shutil.rmtree(t)
