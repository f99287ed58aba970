"""sm_property_tree: P01 (one tree), P02 (typed access), P03 (merge), P05 (inline syntax), P06 (files)."""
import struct
import vf

SRCS = ["sm_property_tree/src/%s.cpp" % x for x in ("PropertyTree", "PropertyTreeImplementation", "BoostPropertyTree", "BoostPropertyTreeImplementation", "BoostPropertyTreeSupport")]
LIBS = ["boost_filesystem", "boost_system"]
MC = "INIT Init\nNEXT Next\nINVARIANT Laws\nCONSTRAINT Bound\nCHECK_DEADLOCK FALSE\nCONSTANTS Depth = %d\nMode = \"%s\"\n"

def build(ctx):
    return ctx.build("ptree", ["ptree.cpp"], SRCS, libs=LIBS)

def dbl(v):
    b = struct.unpack("<Q", struct.pack("<d", v))[0]
    a = abs(v) * 1024
    big = not a < 2e9
    return dict(bits="%016x" % b, neg=bool(b >> 63), big=big, q=0 if big else int(a), exact=not big and a == int(a))

def value(rng, ty):
    if ty == "string":
        return dict(s=rng.choice(["", "x", "hello", "two words", "1", "0", "-7", "1.5", "true", "a/b", "a.b", " 5 ", "1e3", "\n", "\"q\"", "\\", "<a>", "{}", "4x", "0x10", "2147483648"]))
    if ty == "int":
        return dict(i=rng.choice([0, 1, -1, 2, 42, -17, 2147483647, -2147483648, 1000000, rng.randrange(-10**6, 10**6)]))
    if ty == "bool":
        return dict(i=rng.randrange(2))
    x = rng.random()
    if x < 0.5:
        v = rng.choice([0.0, -0.0, 1.0, -1.5, 0.25, 3.0, 1e6, -2.0 ** -10, 0.1, -0.3, 123.456])
    else:
        while True:
            v = struct.unpack("<d", struct.pack("<Q", rng.getrandbits(64)))[0]
            if v == v and abs(v) < 1e308 and (abs(v) > 1e-300):
                break
    return dbl(v)

TYPES = ["string", "int", "bool", "double"]
KEYS = ["a", "b", "a/b", "/a", "/a/b", "/b/c", "b/c", "", "/", "a/", "/a/b/", "x.y", "a/x.y", "x", "c/d/e", "y"]
NSS = ["", "a", "/a", "a/b", "/a/b/", "b/", "/", "x.y", "/x", "c"]

def access(rng, nv, heavy):
    v = rng.randrange(nv) + 1
    ty = rng.choice(TYPES)
    k = rng.choice(KEYS)
    x = rng.random()
    if x < 0.35:
        return dict(op="set", v=v, key=k, ty=ty, x=value(rng, ty))
    if x < 0.6:
        return dict(op="get", v=v, key=k, ty=ty, const=rng.random() < 0.5)
    if x < 0.85 and heavy or x < 0.7:
        return dict(op="getd", v=v, key=k, ty=ty, x=value(rng, ty), const=rng.random() < 0.5, ref=rng.random() < 0.5)
    return dict(op="exists", v=v, key=k)

def history(rng, n, heavy):
    h = [dict(op="new", ns=rng.choice(NSS))]
    nv, nr = 1, 1
    for _ in range(n):
        x = rng.random()
        if x < 0.05 and not heavy:
            h.append(dict(op="new", ns=rng.choice(NSS)))
            nv += 1
        elif x < 0.15:
            h.append(dict(op="view", v=rng.randrange(nv) + 1, ns=rng.choice(NSS), via=rng.randrange(2)))
            nv += 1
        elif x < 0.18:
            h.append(dict(op="copy", v=rng.randrange(nv) + 1))
            nv += 1
        elif x < 0.22 and not heavy:
            h.append(dict(op="children", v=rng.randrange(nv) + 1, const=rng.random() < 0.5))
        else:
            h.append(access(rng, nv, heavy))
    return h

def P01(ctx):
    exe = build(ctx)
    hs = ctx.generate("PropTreeMC", MC % (ctx.pick(3, 4), "calls"), "all call sequences", timeout=800)
    hs = ctx.rng.sample(hs, min(len(hs), ctx.pick(25000, 400000)))
    hs += [history(ctx.rng, 40, False) for _ in range(ctx.pick(600, 8000))]
    ctx.validate("PropTreeTrace", ctx.run_histories(exe, hs), "views, copies, children")

TEXTS = ["", " ", "0", "1", "2", "-1", "+1", "01", "00", "1.", ".5", "0.5", "1.5", "-2.25", "1e3", "1E3", "1e+3", "1e-3", "1e", "1e+", "e5", ".", "-", "+", "--1", "1-", "1 2", " 5 ", "\t7", "7\n", "7,5", "1,000",
         "2147483647", "2147483648", "-2147483648", "-2147483649", "99999999999", "0x10", "10x", "x10", "1.5x", "true", "false", "True", "TRUE", " true ", "truex", "tru", "yes", "t", "no", "false1", "0.0", "1.0",
         "inf", "nan", "hello", "1.5.5", "1e5.5", "0.1", "123456", "0.015625", "10e", "5 x", "..5", "1_0", "12a", "3f", "1.5f", "0b1", "1;", "'1'"]

def P02(ctx):
    exe = build(ctx)
    hs = []
    D = dict(string=dict(s="dflt"), int=dict(i=77), bool=dict(i=1), double=dbl(0.625))
    D2 = dict(string=dict(s=""), int=dict(i=0), bool=dict(i=0), double=dbl(-3.0))
    # decision table: stored text (or inner node, or nothing) x type x default x const
    for text in TEXTS + [None, "inner"]:
        h = [dict(op="new", ns="")]
        if text == "inner":
            h.append(dict(op="set", v=1, key="k/sub", ty="string", x=dict(s="1")))
        elif text is not None:
            h.append(dict(op="set", v=1, key="k", ty="string", x=dict(s=text)))
        for ty in TYPES:
            h += [dict(op="get", v=1, key="k", ty=ty, const=c) for c in (False, True)]
            h += [dict(op="getd", v=1, key="k", ty=ty, x=d[ty], const=True, ref=r) for d in (D, D2) for r in (False, True)]
        for ty in TYPES:
            hs.append(h + [dict(op="getd", v=1, key="k", ty=ty, x=D[ty], const=False), dict(op="getd", v=1, key="k", ty=ty, x=D2[ty], const=False),
                           dict(op="get", v=1, key="k", ty="string", const=True), dict(op="exists", v=1, key="k")])
    # round trips
    for _ in range(ctx.pick(300, 5000)):
        h = [dict(op="new", ns="")]
        for _ in range(10):
            ty = ctx.rng.choice(TYPES)
            k = ctx.rng.choice(["k", "k/l", ""])
            h += [dict(op="set", v=1, key=k, ty=ty, x=value(ctx.rng, ty)), dict(op="get", v=1, key=k, ty=ty, const=ctx.rng.random() < 0.5)]
            if ctx.rng.random() < 0.5:
                t2 = ctx.rng.choice(TYPES)
                h.append(dict(op="getd", v=1, key=k, ty=t2, x=value(ctx.rng, t2), const=ctx.rng.random() < 0.5))
        hs.append(h)
    hs += [history(ctx.rng, 40, True) for _ in range(ctx.pick(400, 6000))]
    ctx.validate("PropTreeTrace", ctx.run_histories(exe, hs), "decision table, round trips, random histories")

def tree(rng, depth, keys, texts, k=""):
    if k == "<xmlcomment>":
        return dict(k=k, d=rng.choice(["note", "two words", "a<b", ""]), c=[])
    ks = rng.sample(keys, rng.randrange(min(len(keys), 4) + 1)) if depth else []
    return dict(k=k, d=rng.choice(texts) if k else "", c=[tree(rng, depth - 1, keys, texts, x) for x in ks])

def P03(ctx):
    exe = build(ctx)
    hs = ctx.generate("PropTreeMC", MC % (1, "merge"), "laws of merging; all pairs of small trees", timeout=800)
    ctx.states += len(hs)
    hs = ctx.rng.sample(hs, min(len(hs), ctx.pick(8000, 60000)))
    for _ in range(ctx.pick(600, 8000)):
        keys = ctx.rng.choice([["a", "b", "c"], ["a", "b", "x.y", "x", "y", ".", "a.b", "a b"]])
        texts = ["", "", "1", "2", " ", "\n\t", " x ", "\r\n"]
        n = ctx.rng.choice([2, 2, 3])
        h = [dict(op="build", t=tree(ctx.rng, 3, keys, texts), ns=ctx.rng.choice(["", "", "a"])) for _ in range(n)]
        for _ in range(ctx.rng.choice([1, 3, 6])):
            v, w = ctx.rng.randrange(n) + 1, ctx.rng.randrange(n) + 1
            h.append(dict(op="update", v=v, w=w, create=ctx.rng.random() < 0.6, ignore=ctx.rng.random() < 0.4))
            if ctx.rng.random() < 0.4:
                h.append(dict(op="set", v=w, key=ctx.rng.choice(["a", "a/b", "x.y"]), ty="string", x=dict(s="later")))
        hs.append(h)
    ctx.validate("PropTreeTrace", ctx.run_histories(exe, hs), "merges")

WORDS = ["a", "b", "c", "x.y", "a_1", "A", "k-2", "u"]
VALS = ["1", "0.1", "hello", "-3", "+x", "true", "a.b", "1:2", "x_y", "0"]

def items(rng, depth):
    out = []
    for _ in range(rng.choice([0, 1, 1, 2, 3, 4])):
        p = "/".join(rng.choice(WORDS[:rng.choice([2, 8])]) for _ in range(rng.choice([1, 1, 2, 3])))
        x = rng.random()
        if x < 0.6 or depth == 0:
            out.append(p + "=" + rng.choice(VALS))
        elif x < 0.7:
            out.append(p)
        elif x < 0.74:
            out.append("")
        else:
            out.append(p + "{" + items(rng, depth - 1) + "}")
    return ",".join(out)

def mutate(rng, s):
    x = rng.random()
    i = rng.randrange(len(s) + 1)
    if x < 0.3:
        return s[:i] + "\"" + s[i:]
    if x < 0.6:   # one closing brace too many, after everything
        return s + "}"
    return s + ("," if s else "") + rng.choice(["a{", "a{b=1", "a/b{c{d=1}"])

def P05(ctx):
    exe = build(ctx)
    texts = ctx.generate("PropTreeMC", MC % (0, "inline"), "every small tree is denoted by its nested text")
    texts += [[",".join(x)] for x in ctx.generate("PropTreeMC", MC % (ctx.pick(3, 4), "items"), "all lists of items")]
    texts = [t[0] for t in texts]
    ctx.rng.shuffle(texts)
    texts = texts[:ctx.pick(9000, 60000)]
    for _ in range(ctx.pick(3000, 30000)):
        s = items(ctx.rng, 3)
        texts.append(mutate(ctx.rng, s) if ctx.rng.random() < 0.15 else s)
    hs = []
    for i in range(0, len(texts), 20):
        h = [dict(op="build", t=tree(ctx.rng, 2, ["a", "b", "old"], ["", "1"]), ns=ctx.rng.choice(["", "", "a"]))]
        h += [dict(op="string", v=1, s=s, via=ctx.rng.randrange(3)) for s in texts[i:i + 20]]
        hs.append(h)
    ctx.validate("PropTreeTrace", ctx.run_histories(exe, hs), "inline texts")

FMTS = ["xml", "json", "ini", "info"]

def file_history(rng, trees):
    h, n = [], 0
    for t in trees:
        h.append(dict(op="build", t=t, ns=rng.choice(["", "", "a"])))
        n += 1
    h.append(dict(op="new", ns=""))
    n += 1
    human, nocomm = False, True
    files = []
    for _ in range(14):
        x = rng.random()
        v = rng.randrange(n) + 1
        if x < 0.1:
            human, nocomm = rng.random() < 0.5, rng.random() < 0.6
            h.append(dict(op="mode", human=human, nocomm=nocomm))
        elif x < 0.5:
            fmt = rng.choice(FMTS)
            via = rng.choice(["ext", "ext", "extstr", "fmt", "str"] + (["info"] if fmt == "info" else []))
            f = "f%d.%s" % (rng.randrange(3), fmt)
            if via in ("fmt", "str", "info") and rng.random() < 0.3:
                f = "other"
            if via in ("ext", "extstr") and rng.random() < 0.06:
                f, fmt = rng.choice([("f.txt", "txt"), ("noext", ""), ("f.XML", "XML"), ("f.info.bak", "bak")])
            files.append((f, fmt))
            h.append(dict(op="save", v=v, f=f, fmt=fmt, via=via))
        elif x < 0.95:
            f, fmt = rng.choice(files) if files and rng.random() < 0.93 else ("missing." + rng.choice(FMTS), None)
            if fmt is None:
                fmt = f.split(".")[-1]
            via = rng.choice(["ext", "fmt", "str", "extstr"] + (["xmlstring"] if fmt == "xml" else []))
            if f == "other" and via in ("ext", "extstr"):
                via = "fmt"
            if fmt not in FMTS:
                via = "ext"
            h.append(dict(op="load", v=v, f=f, fmt=fmt, via=via))
        elif x < 0.97 and files:
            h.append(dict(op="damage", f=rng.choice(files)[0], n=rng.randrange(200), cut=rng.random() < 0.5))
        else:
            h.append(dict(op="set", v=v, key=rng.choice(["a", "s/t"]), ty="string", x=dict(s=rng.choice(["new", ""]))))
    return h

def P06(ctx):
    exe = build(ctx)
    small = [x[0] for x in ctx.generate("PropTreeMC", MC % (0, "forms"), "all small trees")]
    hs = []
    for t in small:
        h = [dict(op="build", t=t, ns=""), dict(op="build", t=ctx.rng.choice(small), ns="")]
        for fmt in FMTS:
            h += [dict(op="save", v=1, f="f." + fmt, fmt=fmt, via="ext"), dict(op="load", v=2, f="f." + fmt, fmt=fmt, via="ext")]
        h += [dict(op="mode", human=True, nocomm=True), dict(op="save", v=1, f="f.xml", fmt="xml", via="ext"), dict(op="load", v=2, f="f.xml", fmt="xml", via="ext")]
        hs.append(h)
    plain, odd = ["", "1", "hello", "x y", "0.5"], ["", "a<b&c>\"'", " lead", "trail ", "  ", "tab\tx", "line\nx", "back\\slash", "semi;colon", "# hash", "{brace}", "=", "[x]", "a  b", "\xe9", "%41", "//", "\n", "\x01"]
    for _ in range(ctx.pick(900, 9000)):
        keys = ctx.rng.choice([["a", "b", "c", "d-1", "_e", "x.y"], ["a", "b", "c", "x.y", "<xmlcomment>"], ["a", "b", "key with space", "1x", "", "a/b", "{", "\"q\"", "a=b", ";c", "<xmlcomment>", "\xe9"]])
        texts = ctx.rng.choice([plain, plain, plain + odd])
        d = ctx.rng.choice([1, 2, 2, 3])
        hs.append(file_history(ctx.rng, [tree(ctx.rng, d, keys, texts) for _ in range(2)]))
    # trees fit for each format
    for _ in range(ctx.pick(500, 5000)):
        def leafy(depth, k):
            c = [leafy(depth - 1, x) for x in ctx.rng.sample(["a", "b", "c", "x.y"], ctx.rng.randrange(4))] if depth else []
            return dict(k=k, d="" if c else ctx.rng.choice(plain + odd), c=c)
        t = leafy(ctx.rng.choice([1, 2, 3]), "")
        t["c"].sort(key=lambda x: 1 if x["c"] else 0)
        t["d"] = ""
        hs.append(file_history(ctx.rng, [t, ctx.rng.choice(small)]))
    ctx.validate("PropTreeTrace", ctx.run_histories(exe, hs), "save and load in all formats")


FF_CFG = "INIT Init\nNEXT Next\nINVARIANT Laws\nCONSTRAINT Bound\nCHECK_DEADLOCK FALSE\nCONSTANTS Mode = \"%s\"\nDepth = %d\n"


def find_history(rng):
    node = lambda: [rng.choice(["d", "e", "d e", ".x", "$(VFA)"]) for _ in range(rng.choice([0, 1, 1, 2]))]
    nodes, h = [[]], []
    for _ in range(rng.choice([10, 30])):
        z = rng.random()
        if z < 0.2:
            p = node() + rng.choice([["a"], ["b"], ["d"]])
            nodes.append(p)
            h.append(dict(op="make", p=p))
        elif z < 0.25 and nodes[1:]:
            h.append(dict(op="remove", p=rng.choice(nodes[1:])))
        elif z < 0.45:
            h.append(dict(op="set", v=rng.choice(["VFA", "VFA_B", "VF"]), p=rng.choice([node(), rng.choice(nodes)]), slash=rng.random() < 0.5))
        elif z < 0.5:
            h.append(dict(op="unset", v=rng.choice(["VFA", "VFA_B", "VF"])))
        else:
            p = rng.choice([["a"], ["b"], rng.choice(nodes), node() + ["a"], node()])
            if rng.random() < 0.15:
                p = [".."] + p
            if rng.random() < 0.15:
                i = rng.randrange(len(p) + 1)
                p = p[:i] + [rng.choice(["d", "e", "a"]), ".."] + p[i:]
            h.append(dict(op="find", v=rng.choice(["VFA", "VFA_B", "VF"]), p=p or ["a"]))
    return h


def P07(ctx):
    exe = ctx.build("findfile", ["findfile.cpp"], ["sm_property_tree/src/BoostPropertyTreeSupport.cpp"], libs=["boost_filesystem", "boost_system"])
    ctx.model_check("FindFileMC", FF_CFG % ("mc", ctx.pick(3, 4)), "settings, disk and look-ups")
    hs = ctx.generate("FindFileMC", FF_CFG % ("gen", 3), "all histories of settings and changes of the disk")
    ctx.validate("FindFileTrace", ctx.run_histories(exe, hs), "every look-up after all histories")
    hs = [find_history(ctx.rng) for _ in range(ctx.pick(1500, 20000))]
    ctx.validate("FindFileTrace", ctx.run_histories(exe, hs), "random histories")
