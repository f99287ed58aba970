#!/usr/bin/env python3
"""check.py <PROPERTY> [--tier quick|thorough] [--seed N]
Exit 0: the property held on everything explored; exit 1: VIOLATION line."""
import importlib, json, os, sys, traceback
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "lib"))
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "checks"))
import vf

def known_findings(prop):
    r = []
    f = os.path.join(vf.VERIF, "known_findings.txt")
    if os.path.exists(f):
        for line in open(f):
            if line.startswith("KNOWN-FINDING: property=%s " % prop):
                r.append(line.strip())
    return r

def main():
    a = sys.argv[1:]
    prop = a[0]
    tier = os.environ.get("VERIF_TIER", "quick")
    seed = int(os.environ.get("VERIF_SEED", "1"))
    if "--tier" in a:
        tier = a[a.index("--tier") + 1]
    if "--seed" in a:
        seed = int(a[a.index("--seed") + 1])
    ctx = vf.Ctx(prop, tier, seed)
    sys.dont_write_bytecode = True
    try:
        mod = importlib.import_module(PROPS[prop])
        try:
            getattr(mod, prop)(ctx)
        except vf.Violation as v:
            d = os.path.join(vf.VERIF, "evidence", "replays")
            os.makedirs(d, exist_ok=True)
            p = os.path.join(d, "%s_seed%d.json" % (prop, seed))
            with open(p, "w") as f:
                json.dump(dict(property=prop, tier=tier, seed=seed, message=str(v), data=v.data), f, indent=1, default=str)
            print(str(v)[:3000])
            ctx.evidence(1)
            print("VIOLATION property=%s replay=%s" % (prop, p), flush=True)
            return 1
        for k in known_findings(prop):
            print(k)
        ctx.evidence(0)
        print("OK property=%s tier=%s states=%d traces=%d events=%d wall=%.1fs" %
              (prop, tier, ctx.states, ctx.traces, ctx.events, __import__("time").time() - ctx.t0))
        return 0
    except vf.ToolError as e:
        print("TOOL ERROR: %s" % e)
        return 2
    except Exception:
        traceback.print_exc()
        return 2
    finally:
        if os.environ.get("VF_KEEP"):
            print("scratch kept:", ctx.scratch)
        else:
            ctx.cleanup()

PROPS = {}
for _f in sorted(os.listdir(os.path.join(vf.VERIF, "checks"))):
    if _f.endswith(".py"):
        for _l in open(os.path.join(vf.VERIF, "checks", _f)):
            if _l.startswith("def ") and _l[4:7].isalnum() and _l[4].isupper() and _l[5:7].isdigit() and "(ctx)" in _l:
                PROPS[_l[4:_l.index("(")]] = _f[:-3]

if __name__ == "__main__":
    sys.exit(main())
