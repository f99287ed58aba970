"""sm_value_store: V01 (handles), V02 (layers), V03 (prefixes), V04 (verbose), V05 (candidate paths)."""
import os, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import ptree
from ptree import value, TYPES, dbl

SRCS = ptree.SRCS + ["sm_value_store/src/%s.cpp" % x for x in ("ValueStore", "PropertyTreeValueStore", "PrefixedValueStore", "VerboseValueStore")]
MC = ptree.MC
NAMES = ["a", "b", "p"]
TEXTS = ["1", "0", "-7", "x", "", "2.5", "true", "two words"]

def build(ctx):
    return ctx.build("valuestore", ["valuestore.cpp"], SRCS, libs=ptree.LIBS)

def tree(rng, depth, k="", dup=False):
    names = [rng.choice(NAMES) for _ in range(rng.randrange(4))] if dup else rng.sample(NAMES, rng.randrange(4))
    return dict(k=k, d=rng.choice(TEXTS) if k else "", c=[tree(rng, depth - 1, x, dup) for x in names] if depth else [])

def path(rng):
    n = rng.choice([1, 1, 2, 2, 2, 3, 3, 4])
    p = "/".join(rng.choice(NAMES) for _ in range(n))
    return rng.choice([p] * 12 + ["/" + p, p + "/", "", "x"])

def updates(rng):
    return {t: value(rng, t) for t in TYPES}

def plain(rng, ty):
    v = value(rng, ty)
    return v

def history(rng, n, kinds, dup=False):
    """kinds: weights of the composing operations"""
    h = [dict(op="build", t=tree(rng, 3, dup=dup), ns=rng.choice(["", "", "", "a", "/p"]), viaExt=rng.random() < 0.5) for _ in range(rng.choice([1, 2, 2, 3]))]
    nroots, nv, nh = len(h), len(h), 0
    lays = []
    comp = [k for k, w in kinds.items() for _ in range(w)]
    pre = rng.choice([["p"], ["p", "a", "p/a"], ["p", "a/b", ""]])
    for i in range(n):
        v = nv - rng.randrange(min(nv, 4)) if rng.random() < 0.6 else rng.randrange(nv) + 1
        x = rng.random()
        ty = rng.choice(TYPES)
        if x < 0.25:
            o = rng.choice(comp)
            if o == "lay":
                h.append(dict(op="lay", l=[rng.randrange(nv) + 1 for _ in range(rng.choice([0, 1, 2, 2, 3, 4]))]))
                nv += 1
                lays.append(nv)
            elif o == "addlay":
                if lays:
                    l = rng.choice(lays)
                    if l > 1:
                        h.append(dict(op="addlay", v=l, w=rng.randrange(l - 1) + 1))
            elif o == "pre":
                h.append(dict(op="pre", v=v, mode=rng.choice(["add", "remove"]), pre=rng.choice(pre)))
                nv += 1
            elif o == "ver":
                e = rng.random() < 0.5
                h.append(dict(op="ver", v=v, ext=e))
                nv += 0 if e else 1
            elif o == "child":
                h.append(dict(op="child", v=v, key=rng.choice([rng.choice(NAMES), path(rng).strip("/") or "a"] + pre)))
                nv += 1
            elif o == "children":
                h.append(dict(op=rng.choice(["children", "children", "echildren"]), v=v))
            elif o == "echild":
                h.append(dict(op="echild", v=v, key=rng.choice(NAMES)))
            elif o == "fresh":
                h.append(dict(op="fresh") if rng.random() < 0.5 else dict(op="parse", s=rng.choice(["a=1,b{p=2}", "p/a=3", ""]), viaExt=rng.random() < 0.5))
                nv += 1
            else:
                h.append(dict(op=o, v=v))
                nv += 1
        elif x < 0.45:
            d = rng.random() < 0.4
            e = dict(op="get", v=v, path=path(rng), ty=ty if d or rng.random() < 0.4 else "string", **{"def": d})
            if d:
                e["x"] = value(rng, ty)
            h.append(e)
            nh += 1
        elif x < 0.55:
            h.append(dict(op="has", v=v, path=path(rng)))
        elif x < 0.63:
            h.append(dict(op="add", v=v, path=path(rng), ty=ty, x=value(rng, ty)))
            nh += 1
        elif x < 0.71 and nh:
            h.append(dict(op="hget", h=rng.randrange(nh) + 1))
        elif x < 0.81 and nh:
            h.append(dict(op="hupd", h=rng.randrange(nh) + 1, x=updates(rng)))
        elif x < 0.87:
            h.append(dict(op="tset", root=rng.randrange(nroots) + 1, key="/" + path(rng).lstrip("/"), ty=ty, x=value(rng, ty)))
        elif x < 0.91:
            h.append(candidates(rng, v))
            nh += 1
        elif x < 0.96:
            d = rng.random() < 0.5
            e = dict(op="aspt", v=v, path=path(rng), ns=rng.choice(["", "", "a", "/p/"]), ty=ty, **{"def": d})
            if d:
                e["x"] = value(rng, ty)
            h.append(e if rng.random() < 0.7 else dict(op="aspthas", v=v, path=e["path"], ns=e["ns"]))
        else:
            h.append(dict(op=rng.choice(["empty", "ext", "cansave"]), v=v) if rng.random() < 0.9 else dict(op="null"))
    return h

def questions(rng, vs, nh):
    h = []
    for v in vs:
        for p in ["", "a", "b", "p", "a/b"]:
            x = rng.random()
            if x < 0.4:
                h.append(dict(op="get", v=v, path=p, ty="string", **{"def": False}))
                nh += 1
            elif x < 0.6:
                h.append(dict(op="has", v=v, path=p))
            elif x < 0.8:
                ty = rng.choice(TYPES)
                h.append(dict(op="get", v=v, path=p, ty=ty, x=value(rng, ty), **{"def": True}))
                nh += 1
            elif nh:
                h.append(dict(op="hupd", h=nh - rng.randrange(min(nh, 3)), x=updates(rng)))
    return h

def stacks(rng):
    """several layers, their children by name and by key"""
    n = rng.choice([2, 3, 3, 4])
    h = [dict(op="build", t=tree(rng, 3), ns="") for _ in range(n)]
    nv = n
    if rng.random() < 0.3:
        h.append(dict(op=rng.choice(["nch", "child", "pre"]), v=rng.randrange(nv) + 1, key="a", mode="add", pre=rng.choice(NAMES)))
        nv += 1
    l = [rng.randrange(nv) + 1 for _ in range(rng.choice([2, 3, 4, 5]))]
    if rng.random() < 0.6:
        l = list(range(1, n + 1))
        rng.shuffle(l)
    h.append(dict(op="lay", l=l))
    nv += 1
    if rng.random() < 0.5:
        h.append(dict(op="children", v=nv))
        h += questions(rng, range(nv + 1, nv + 4), 0)
    else:
        h.append(dict(op="child", v=nv, key=rng.choice(NAMES + ["a/b"])))
        if rng.random() < 0.5:
            h.append(dict(op="addlay", v=nv, w=rng.randrange(nv - 1) + 1))
        h += questions(rng, [nv + 1, nv], 0)
        h.append(dict(op="children", v=nv + 1))
        h += questions(rng, range(nv + 2, nv + 4), 0)
    return h

def candidates(rng, v):
    ty = rng.choice(["string", "string", "int", "double", "bool"])
    d = rng.random() < 0.5
    l = []
    for _ in range(rng.choice([1, 2, 2, 3, 4])):
        p = rng.choice(["a", "b", "p", "a/b", "no", "none", "x/y", "a/a/a", path(rng)])
        if rng.random() < 0.5:
            l += ["!" + p]
            l += [rng.choice(["text", "a", "b", "p", "!a", "", "use b"])] if rng.random() < 0.9 else []
        else:
            l += [p]
    e = dict(op="find", v=v, paths=l, ty=ty, quiet=rng.random() < 0.1, **{"def": d})
    if d:
        e["x"] = value(rng, ty)
    return e

def check(ctx, mode, depth, kinds, n, what, dup=0.0, more=None):
    exe = build(ctx)
    hs = list(ctx.generate("ValueStoreMC", MC % (ctx.pick(*depth), mode), "all small compositions: " + mode))
    for _ in range(ctx.pick(*n)):
        hs.append(history(ctx.rng, ctx.rng.choice([10, 20, 30]), kinds, ctx.rng.random() < dup))
        if more:
            hs.append(more(ctx.rng))
    ctx.validate("ValueStoreTrace", ctx.run_histories(exe, hs), what)

def V01(ctx):
    check(ctx, "handles", (3, 4), dict(child=4, children=3, echild=3, fresh=1), (900, 9000), "handles and children of one store", 0.2)

def V02(ctx):
    check(ctx, "layers", (2, 3), dict(lay=6, addlay=3, child=3, children=2, nch=1, fresh=1), (900, 9000), "layered stores", 0.1, stacks)

def V03(ctx):
    check(ctx, "prefix", (2, 3), dict(pre=6, child=4, nch=1, lay=1, children=1), (900, 9000), "prefixed stores")

def V04(ctx):
    check(ctx, "verbose", (2, 3), dict(ver=6, child=3, children=3, echild=2, lay=1, pre=1, addlay=1, nch=1, fresh=1), (900, 9000), "verbose stores", 0.3)

def V05(ctx):
    exe = build(ctx)
    hs = list(ctx.generate("ValueStoreMC", MC % (ctx.pick(4, 5), "find"), "all short candidate lists"))
    for _ in range(ctx.pick(700, 7000)):
        h = history(ctx.rng, 6, dict(lay=2, pre=2, ver=2, child=2, fresh=1))
        n = sum(1 for e in h if e["op"] in ("build", "lay", "pre", "child", "fresh", "parse"))
        for _ in range(10):
            h.append(candidates(ctx.rng, ctx.rng.randrange(n) + 1))
        hs.append(h)
    ctx.validate("ValueStoreTrace", ctx.run_histories(exe, hs), "candidate paths")
