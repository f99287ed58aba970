#!/bin/bash
# testplants.sh ID...: the repository's tests with each planted bug, in a copy that is mounted on /repo (in a user
# namespace); prints the IDs the tests catch.
C=$(mktemp -d /tmp/tp.XXXXXX)
trap 'rm -rf "$C"' EXIT
cp -a /repo "$C/repo"
S=/verif/seeded
unshare -Urm bash -c '
mount --bind "$1/repo" /repo || exit 9
cd /repo; git worktree prune
shift; S=$1; shift
for id in "$@"; do
  git checkout -q -- . && git apply "$S/$id/patch.diff" || { echo "$id: does not apply"; continue; }
  ok=0
  for i in 1 2; do
    bash /opt/vp/test.sh /tmp/tp_$$.json >/tmp/tp_$$.log 2>&1
    python3 - /tmp/tp_$$.json "$id" <<E
import json, sys
d = json.load(open(sys.argv[1])); b = json.load(open("/opt/vp/BASELINE.json"))
names = b if isinstance(b, list) else b.get("passed") or b.get("tests") or b.get("stable")
miss = [n for n in names if n not in d["passed"]]
print(sys.argv[2], "OK" if not miss else "TESTS CATCH %s" % miss[:3])
E
  done
  git checkout -q -- .
done' x "$C" $S "$@"
