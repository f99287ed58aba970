"""MatrixArchive: A01 (map semantics), A02 (files), A03 (damaged files)."""
import itertools, vf

def build(ctx):
    return ctx.build("archive", ["archive.cpp"], ["sm_matrix_archive/src/MatrixArchive.cpp"],
                     libs=["boost_filesystem", "boost_system"])

CFG = "INIT Init\nNEXT Next\nINVARIANT %s\nCONSTRAINT %s\nCHECK_DEADLOCK FALSE\nCONSTANTS Depth = %d\nMode = \"%s\"\n"

SPECIAL = [[0]*8, [66]*8, [0, 0, 0, 0, 0, 0, 240, 127], [0, 0, 0, 0, 0, 0, 248, 127], [0]*7 + [128], [1] + [0]*7,
           [65, 32, 32, 32, 97, 32, 32, 32], [255]*8, [0, 0, 0, 0, 0, 0, 240, 63]]

def name(rng):
    x = rng.random()
    if x < 0.7:
        return [ord(c) for c in rng.choice(["a", "b", "A", "a1", "a_b", "Zz", "B"])]
    if x < 0.8:
        return [ord(c) for c in "abcdefghijklmnopqrstuvwxyz_ABCDEFGH"[:rng.choice([31, 32, 33])]]
    return [ord(c) for c in rng.choice(["", "1a", "_a", "a b", "a-b", " a", "a ", "a.b", "b\n", "\u00e9a", "a\u00e9", "a\x00", "a/b"])]

def dbl(rng):
    return rng.choice(SPECIAL) if rng.random() < 0.5 else [rng.randrange(256) for _ in range(8)]

def matrix(rng, e, r=None, c=None):
    e["rr"] = rng.choice([0, 1, 1, 2, 3]) if r is None else r
    e["c"] = rng.choice([0, 1, 1, 2, 3]) if c is None else c
    e["d"] = sum((dbl(rng) for _ in range(e["rr"] * e["c"])), [])
    return e

def ev(rng, kinds):
    op = rng.choice(kinds)
    e = dict(op=op, a=rng.choice([1, 1, 1, 2]))
    if op in ("setMatrix", "setMatrixXd", "createMatrix"):
        e["n"] = name(rng); matrix(rng, e)
        if op == "createMatrix":
            e["ow"] = rng.random() < 0.5
    elif op == "setVector":
        e["n"] = name(rng); matrix(rng, e, c=rng.choice([1, 1, 1, 2, 0]))
    elif op == "setVectorXd":
        e["n"] = name(rng); matrix(rng, e, c=1)
    elif op == "setScalar":
        e["n"] = name(rng); matrix(rng, e, 1, 1)
    elif op == "setString":
        e["n"] = name(rng); e["d"] = [rng.randrange(256) for _ in range(rng.choice([0, 1, 3, 10]))]
    elif op in ("getMatrix", "getVector", "getScalar", "getString", "find", "clearName"):
        e["n"] = name(rng)
    elif op in ("save", "append", "load"):
        e["f"] = rng.choice([1, 1, 1, 2, 2, 3] if rng.random() < 0.1 else [1, 1, 2])
        e["names"] = [name(rng) for _ in range(rng.choice([0, 0, 0, 1, 2, 3]))]
        e["via"] = rng.choice(["path", "path1", "str"] + (["stream"] if op == "save" and e["f"] != 3 else []))
    elif op == "trunc":
        e["f"] = rng.choice([1, 2]); e["kk"] = rng.choice([rng.randrange(60), rng.randrange(400)])
    elif op == "poke":
        e["f"] = rng.choice([1, 2]); e["kk"] = rng.choice([1, rng.randrange(1, 60), rng.randrange(30, 50), rng.randrange(1, 300)])
        e["b"] = rng.choice([0, 1, 65, 66, 83, 32, 97, rng.randrange(128)])
    elif op == "remove":
        e["f"] = rng.choice([1, 2])
    return e

MAP = ["setMatrix", "setMatrixXd", "setVector", "setVectorXd", "setScalar", "setString", "setString", "createMatrix",
       "getMatrix", "getVector", "getScalar", "getString", "find", "clearName", "clearName"] * 3 + ["clear"]
FILE = ["setMatrix", "setMatrix", "setString", "setString", "setScalar", "clearName", "save", "save", "append", "append", "load", "load", "load"] * 3 + ["clear", "remove"]
DAM = ["setMatrix", "setMatrix", "setString", "setString", "save", "save", "append", "load", "load", "load", "trunc", "poke", "poke"]

def go(ctx, exe, hists, what):
    ctx.validate("ArchiveTrace", ctx.run_histories(exe, hists), what,
                 cfg="INIT TInit\nNEXT TNext\nINVARIANT TAccepted TSafe\nCHECK_DEADLOCK FALSE\n")

def A01(ctx):
    exe = build(ctx)
    ctx.model_check("ArchiveMC", CFG % ("Inv", "FileBound", ctx.pick(60, 120), "mc"), "maps and files, name disjointness and validity")
    go(ctx, exe, ctx.generate("ArchiveMC", CFG % ("Inv", "GenBound", 3, "map"), "all call sequences of length 3"), "exhaustive depth 3")
    hs = [[ev(ctx.rng, MAP) for _ in range(40)] for _ in range(ctx.pick(600, 6000))]
    go(ctx, exe, hs, "random map histories")
    if not ctx.quick:
        hs = ctx.generate("ArchiveMC", CFG % ("Inv", "GenBound", 14, "map"), "simulation", workers=1,
                          extra=["-simulate", "num=4000", "-depth", "16", "-seed", str(ctx.seed)])
        go(ctx, exe, hs, "TLC simulation")

def A02(ctx):
    exe = build(ctx)
    ctx.model_check("ArchiveMC", CFG % ("Inv InvFile", "FileBound", 0, "codec"), "round trip of every reachable archive")
    hs = ctx.generate("ArchiveMC", CFG % ("Inv", "GenBound", 10, "file"), "simulation", workers=1,
                      extra=["-simulate", "num=%d" % ctx.pick(60, 1500), "-depth", "12", "-seed", str(ctx.seed)])
    go(ctx, exe, hs, "TLC simulation")
    go(ctx, exe, [[ev(ctx.rng, FILE) for _ in range(30)] for _ in range(ctx.pick(400, 4000))], "random file histories")

def A03(ctx):
    exe = build(ctx)
    ctx.model_check("ArchiveMC", CFG % ("Inv InvFile", "FileBound", 0, "codec"), "every crash point of every reachable archive")
    # every truncation point of several files, loaded after each
    rng = ctx.rng
    hs = []
    for _ in range(ctx.pick(3, 25)):
        base = []
        for i in range(rng.choice([1, 2, 3])):
            e = ev(rng, ["setMatrix", "setString"])
            e["a"] = 1; e["n"] = [97 + i]
            base.append(e)
        size = sum(1 + 32 + 1 + (8 + len(e["d"]) if e["op"] == "setMatrix" else 4 + len(e["d"])) for e in base)
        sv = dict(op="save", a=1, f=1, names=[], via="str")
        ld = dict(op="load", a=2, f=1, names=[], via="str")
        h = list(base)
        for k in range(size + 1):
            h += [sv, dict(op="trunc", a=2, f=1, kk=k), ld, dict(op="clear", a=2)]
        hs.append(h)
        # load a truncated file right after a complete one: stale buffers
        h = list(base)
        for k in range(0, size + 1):
            h += [sv, ld, dict(op="trunc", a=2, f=1, kk=k), ld]
        hs.append(h)
    # every structural byte damaged with several values
    for _ in range(ctx.pick(2, 12)):
        e1 = matrix(rng, dict(op="setMatrix", a=1, n=[97]), rng.choice([1, 2]), rng.choice([1, 2]))
        e2 = dict(op="setString", a=1, n=[98], d=[rng.randrange(256) for _ in range(rng.choice([0, 2, 5]))])
        b1 = 42 + len(e1["d"])
        struct = list(range(1, 42)) + [b1] + [b1 + i for i in range(1, 38)] + [b1 + 38 + len(e2["d"])]
        h = [e1, e2]
        for p in struct:
            for b in rng.sample([0, 1, 2, 32, 65, 66, 83, 97, 98, 127], ctx.pick(3, 8)):
                h += [dict(op="save", a=1, f=1, names=[], via="path"), dict(op="poke", a=2, f=1, kk=p, b=b),
                      dict(op="load", a=2, f=1, names=[] if rng.random() < .8 else [[98]], via="path")]
        hs.append(h)
        # the tags with every other value
        for p in (1, b1, b1 + 1, b1 + 38 + len(e2["d"])):
            h = [e1, e2]
            for b in range(256):
                h += [dict(op="save", a=1, f=1, names=[], via="path"), dict(op="poke", a=2, f=1, kk=p, b=b), dict(op="load", a=2, f=1, names=[], via="path")]
            hs.append(h)
    go(ctx, exe, hs, "all truncation points and damaged structural bytes")
    go(ctx, exe, [[ev(rng, DAM) for _ in range(30)] for _ in range(ctx.pick(400, 4000))], "random histories with faults")

# a disk that runs full while a file is written
ST_CFG = "INIT Init\nNEXT Next\nINVARIANT Laws\nCONSTRAINT Bound\nCHECK_DEADLOCK FALSE\nCONSTANTS Mode = \"%s\"\nDepth = %d\n"
ST_TR = "INIT TInit\nNEXT TNext\nINVARIANT TAccepted\nCHECK_DEADLOCK FALSE\n"
ST_KINDS = ["ama", "append", "named", "stream", "xml", "xmlh", "ini", "info", "json", "vs", "bin", "txt", "xser"]

def storage_history(rng):
    h, kinds = [], rng.sample(ST_KINDS, 2) + ["append", "ama"]
    alt = rng.random() < 0.5
    for _ in range(rng.choice([8, 20])):
        k, p = rng.choice(kinds), rng.randrange(1, 4)
        nodir = k != "stream" and rng.random() < 0.04
        if rng.random() < 0.6:
            at = rng.choice(["all", "all", "abs", "end", "end", "part"])
            n = dict(all=0, abs=rng.choice([0, 1, 2, 8190, 8191, 8192, rng.randrange(20000)]), end=rng.choice([-1, 0, 1, -2, -8, -rng.randrange(1, 200)]), part=rng.randrange(1100))[at]
            h.append(dict(op="save", kind=k, p=p, part=rng.choice([0, 0, 1, 2]), c=rng.randrange(8), at=at, n=n, short=rng.random() < 0.3, nodir=nodir, alt=alt))
        h.append(dict(op="load", kind=k, p=p, nodir=nodir, alt=alt))
    return h

def A04(ctx):
    srcs = ["sm_matrix_archive/src/MatrixArchive.cpp"] + ["sm_property_tree/src/%s.cpp" % f for f in ("BoostPropertyTree", "BoostPropertyTreeImplementation", "PropertyTree", "PropertyTreeImplementation")] + \
           ["sm_value_store/src/%s.cpp" % f for f in ("ValueStore", "PropertyTreeValueStore", "VerboseValueStore", "PrefixedValueStore")]
    exe = ctx.build("storage", ["storage.cpp"], srcs, libs=["boost_filesystem", "boost_system", "boost_serialization"])
    ctx.model_check("StorageMC", ST_CFG % ("mc", ctx.pick(3, 4)), "files on a disk that runs full")
    hs = ctx.generate("StorageMC", ST_CFG % ("gen", 8), "every kind of file and place where the space ends")
    for h in hs:
        alt = ctx.rng.random() < 0.5
        for e in h:
            e["alt"] = alt
    ctx.validate("StorageTrace", ctx.run_histories(exe, hs), "every kind of file and place where the space ends", cfg=ST_TR)
    hs = [storage_history(ctx.rng) for _ in range(ctx.pick(600, 12000))]
    ctx.validate("StorageTrace", ctx.run_histories(exe, hs), "random saves, appends and loads", cfg=ST_TR)
