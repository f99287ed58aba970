#!/usr/bin/env python3
"""Regenerates MANIFEST.json from the claimed checks (checks/*.py) and NOTES below."""
import json, os, re
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = [json.loads(l) for l in open(V + "/properties.jsonl")]
claimed = {}
for f in sorted(os.listdir(V + "/checks")):
    if f.endswith(".py"):
        for l in open(V + "/checks/" + f):
            m = re.match(r"def ([A-Z]\d\d)\(ctx\)", l)
            if m:
                claimed[m.group(1)] = f
NOTE = json.load(open(V + "/tools/notes.json"))
NA = NOTE["not_applicable"]
checks, na = [], []
for p in props:
    i = p["id"]
    if i in claimed:
        n = NOTE["notes"][i]
        checks.append(dict(property=i, quick_cmd="python3 check.py %s --tier quick" % i,
                           thorough_cmd="python3 check.py %s --tier thorough" % i,
                           technique="TLA+ specification checked with TLC; " + n[0], level="model_checking", level_note=n[1]))
    else:
        na.append(dict(property=i, reason=NA.get(i, "not claimed yet: the specification and its conformance check are still being built")))
m = dict(version=1, setup_cmd="true", checks=checks, not_applicable=na,
         hooks=NOTE.get("hooks", dict(guard="SM_VERIF", enable="no hooks are needed: every property is observed through the public API or by interposing pthread functions in the test driver", source_commits=[])),
         notes="Specification language: TLA+ (TLC). See DESIGN.md.")
json.dump(m, open(V + "/MANIFEST.json", "w"), indent=1)
print(len(checks), "claimed,", len(na), "not")
