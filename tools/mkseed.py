#!/usr/bin/env python3
"""mkseed.py SPEC.py: makes /verif/seeded/<id> from a specification (ID, PROP, EDITS=[(file, old, new)], NEEDS, BREAKS, DEMO C++ text, FLAGS) and confirms in scratch copies that the
demonstration passes without and fails with the change."""
import sys, os, json, subprocess, shutil, runpy
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
def sh(c, **k): return subprocess.run(c, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **k)
DEMOSH = """#!/bin/bash
# run in the repository's root: builds and runs demo.cpp against it; non-zero if the property fails
D=$(cd "$(dirname "$0")" && pwd); T=$(mktemp -d)
%s "$D/demo.cpp" -o "$T/demo" || { rmdir "$T"; exit 99; }
timeout 120 "$T/demo"; rc=$?
rm -f "$T/demo"; rmdir "$T"; exit $rc
"""
for spec in sys.argv[1:]:
    s = runpy.run_path(spec); I = s["ID"]; out = os.path.join(V, "seeded", I); os.makedirs(out, exist_ok=True)
    W = "/tmp/w/srepo"
    sh(["rm", "-rf", "/tmp/w/srepo"]); sh(["git", "clone", "-q", "/repo", W], check=True)
    for f, a, b, *k in s["EDITS"]:
        p = os.path.join(W, f); t = open(p).read()
        if not k and t.count(a) != 1: print(I, f, "matches", t.count(a)); sys.exit(1)
        x = t.split(a); k = k[0] if k else 0
        open(p, "w").write(a.join(x[:k + 1]) + b + a.join(x[k + 1:]))
    open(os.path.join(out, "patch.diff"), "w").write(sh(["git", "-C", W, "diff"]).stdout)
    open(os.path.join(out, "demo.cpp"), "w").write(s["DEMO"].lstrip("\n"))
    open(os.path.join(out, "demo.sh"), "w").write(DEMOSH % s.get("CC", "g++ -std=c++17 -O1 -w -pthread -I. " + s.get("FLAGS", ""))); os.chmod(os.path.join(out, "demo.sh"), 0o755)
    json.dump({"property": s["PROP"], "needs": s["NEEDS"], "what_it_breaks": s["BREAKS"]}, open(os.path.join(out, "meta.json"), "w"), indent=1)
    bad = sh([os.path.join(out, "demo.sh")], cwd=W); ok = sh([os.path.join(out, "demo.sh")], cwd="/repo")
    print(I, "clean", ok.returncode, "patched", bad.returncode, "" if ok.returncode == 0 else ok.stdout[-1500:], bad.stdout[-300:])
    sh(["rm", "-rf", "/tmp/w/srepo"])
