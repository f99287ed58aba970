#!/usr/bin/env python3
"""plant.py ID PROPERTY FILE OLD NEW SRCS LIBS -- see usage in DESIGN.md (planting bugs).
Reads a JSON spec from stdin: {id, property, edits:[[file, old, new]...], needs, breaks, demo (C++ source),
srcs:[repo sources], libs:[..], flags}. Creates seeded/<id>/ and verifies it: demo passes on /repo, fails on the patched copy."""
import json, os, shutil, subprocess, sys
V = "/verif"
s = json.load(sys.stdin) if len(sys.argv) < 2 else json.load(open(sys.argv[1]))
d = os.path.join(V, "seeded", s["id"])
os.makedirs(d, exist_ok=True)
wt = "/tmp/plant_wt"
subprocess.run(["rm", "-rf", wt]); subprocess.run(["git", "-C", "/repo", "worktree", "prune"])
subprocess.check_call(["git", "-C", "/repo", "worktree", "add", "-q", "--detach", wt, "HEAD"])
try:
    for f, old, new in s["edits"]:
        p = os.path.join(wt, f)
        t = open(p).read()
        if t.count(old) != 1:
            print("edit does not match exactly once:", f, repr(old), t.count(old)); sys.exit(1)
        open(p, "w").write(t.replace(old, new))
    diff = subprocess.check_output(["git", "-C", wt, "diff"], text=True)
    open(d + "/patch.diff", "w").write(diff)
    open(d + "/demo.cpp", "w").write(s["demo"])
    incs = " ".join('-I"$PWD/%s/include"' % p for p in ["sm_common", "sm_random", "sm_boost", "sm_eigen", "sm_kinematics", "sm_logging",
                    "sm_matrix_archive", "sm_property_tree", "sm_timing", "sm_value_store", "sm_deprecation"])
    sh = """#!/bin/bash
# exit 0: the property holds in this demonstration; nonzero: it is broken
D="$(cd "$(dirname "$0")" && pwd)"
T="$(mktemp -d)"
trap 'rm -rf "$T"' EXIT
g++ -std=c++14 -O1 -w -include boost/bind.hpp -DBOOST_BIND_GLOBAL_PLACEHOLDERS %s -I/usr/include/eigen3 %s "$D/demo.cpp" %s -o "$T/demo" %s -lpthread || exit 99
cd "$T" && timeout %d ./demo
""" % (s.get("flags", ""), incs, " ".join('"$PWD/%s"' % x for x in s.get("srcs", [])), " ".join("-l" + l for l in s.get("libs", [])), s.get("timeout", 60))
    open(d + "/demo.sh", "w").write(sh)
    os.chmod(d + "/demo.sh", 0o755)
    json.dump(dict(property=s["property"], needs=s["needs"], what_it_breaks=s["breaks"]), open(d + "/meta.json", "w"), indent=1)
    a = subprocess.run(["bash", d + "/demo.sh"], cwd="/repo", capture_output=True, text=True)
    b = subprocess.run(["bash", d + "/demo.sh"], cwd=wt, capture_output=True, text=True)
    print("demo unchanged:", a.returncode, (a.stdout + a.stderr)[-300:], "| patched:", b.returncode, (b.stdout + b.stderr)[-300:])
    ok = a.returncode == 0 and b.returncode not in (0, 99)
    print("DEMO OK" if ok else "DEMO BAD")
    if ok and "--nocheck" not in sys.argv:
        r = subprocess.run(["python3", V + "/check.py", s["property"]], env=dict(os.environ, VERIF_REPO=wt), capture_output=True, text=True, cwd=V)
        print("check:", "CAUGHT" if r.returncode == 1 else "MISSED rc=%d" % r.returncode, r.stdout[-700:])
finally:
    subprocess.run(["git", "-C", "/repo", "worktree", "remove", "--force", wt])
