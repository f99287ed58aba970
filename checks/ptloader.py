"""sm_property_tree loader: P04 (layered configuration files)."""
import vf
from ptree import SRCS, LIBS

MC = "INIT Init\nNEXT Next\nINVARIANT Laws\nCONSTRAINT Bound\nCHECK_DEADLOCK FALSE\nCONSTANTS Depth = 0\n"
DIRS = [["d"], ["d", "sub"], ["e"], ["e", "x"], ["w", "l"], ["e", "sub"]]
FILES = ["a.info", "b.info", "c.xml", "e.json", "sub/a.info", "x/b.info"]

def name(rng):
    x = rng.random()
    f = rng.choice(FILES)
    if x < 0.55:
        n = f
    elif x < 0.7:
        n = rng.choice(["./", "../"]) + f
    elif x < 0.78:
        n = rng.choice(["@/d/", "@/e/", "@/", "@/d/../e/", "@/d/sub/../"]) + f
    elif x < 0.86:
        n = rng.choice(["sub/", "x/", "d/", "l/", "sub/../", "nodir/../", "./sub/", "../sub/", ".././"]) + f
    else:
        n = f.replace(".info", "")[0] + ".info"
    return n + ("!" if rng.random() < 0.12 else "")

def content(rng, ext, depth=2, k=""):
    ks = rng.sample(["k", "g", "own" + str(rng.randrange(4)), "h"], rng.randrange(1, 4)) if depth else []
    c = [content(rng, ext, depth - 1, x) for x in ks]
    d = "" if (not k or (c and ext == "json")) else rng.choice(["", "1", "2", "3", "v w"])
    return dict(k=k, d=d, c=c)

def leaf(k, d):
    return dict(k=k, d=d, c=[])

def with_parents(rng, t, names):
    par = ",".join(names)
    x = rng.random()
    if x < 0.6:
        t["c"].insert(rng.choice([0, len(t["c"])]), leaf("parents", par))
    else:
        if x < 0.7:
            t["c"].append(leaf("parents", ""))
        i = 0 if x < 0.95 else len(t["c"]) - 1   # only the first group counts
        t["c"][i]["c"].append(leaf("parents", par))
        if t["c"][i]["k"] != "parents":
            t["c"][i]["d"] = ""
    return t

def history(rng):
    h = [dict(op="mkdir", p=d) for d in DIRS]
    dirs = [[], ["w"]] + DIRS
    paths = []
    def write():
        f = rng.choice(["a.info", "b.info", "c.xml", "e.json"])
        p = (rng.choice(paths) if paths and rng.random() < 0.2 else rng.choice(dirs) + [f])
        ext = p[-1].split(".")[-1]
        t = content(rng, ext)
        if rng.random() < 0.6:
            with_parents(rng, t, [name(rng) if rng.random() < 0.95 else "" for _ in range(rng.choice([1, 1, 2, 3]))])
        h.append(dict(op="write", p=p, good=rng.random() < 0.97, t=t))
        paths.append(p)
    for _ in range(rng.randrange(4, 16)):
        write()
    def setpaths():
        s = rng.sample(["@/d", "@/e", "@/w/l", "../d", ".", "@/d/sub", "nodir"], rng.choice([0, 1, 1, 2, 3]))
        h.append(dict(op="paths", search=s, infix=rng.sample(["", "sub", "x", "sub/../x"], rng.choice([0, 0, 1, 2, 3]))))
    setpaths()
    for _ in range(10):
        x = rng.random()
        if x < 0.1:
            setpaths()
        elif x < 0.25:
            write()
        elif x < 0.3 and paths:
            h.append(dict(op="remove", p=rng.choice(paths)))
        elif x < 0.55:
            rel = rng.choice(["", "", "@/d/a.info", "@/e/x/b.info", "./a.info", "../d/sub/a.info"])
            h.append(dict(op="resolve", path=name(rng).rstrip("!"), rel=rel))
        else:
            h.append(dict(op="load", names=[name(rng) if rng.random() < 0.95 else "" for _ in range(rng.choice([1, 1, 2, 3]))] , comma=rng.random() < 0.5))
    return h

def found_history(rng):
    """all names can be found: longer chains of parents"""
    ds = [["d"], ["e"], ["e", "x"]]
    h = [dict(op="mkdir", p=d) for d in ds]
    fs = ["a.info", "b.info", "c.xml", "f.info", "g.xml"]
    def ref():
        return rng.choice(["", "", "", "./", "@/d/"]) + rng.choice(fs) + ("!" if rng.random() < 0.06 else "")
    for d in ds[:rng.choice([1, 2, 3])]:
        for f in fs:
            if d == ["d"] or rng.random() < 0.6:
                t = content(rng, f)
                if rng.random() < 0.5:
                    with_parents(rng, t, [ref() for _ in range(rng.choice([1, 1, 2]))])
                h.append(dict(op="write", p=d + [f], good=True, t=t))
    h.append(dict(op="paths", search=rng.choice([["@/d"], ["@/e", "@/d"], ["@/e/x", "@/d", "@/e"]]), infix=rng.choice([[], ["x", ""]])))
    for _ in range(8):
        h.append(dict(op="load", names=[ref() for _ in range(rng.choice([1, 1, 2]))], comma=rng.random() < 0.5))
    return h

def P04(ctx):
    exe = ctx.build("ptload", ["ptload.cpp"], SRCS + ["sm_property_tree/src/BoostPropertyTreeLoader.cpp"], libs=LIBS)
    hs = ctx.generate("LoaderMC", MC, "laws of the load order; all parent graphs over three files", timeout=800)
    hs = ctx.rng.sample(hs, min(len(hs), ctx.pick(5000, 20000)))
    hs += [history(ctx.rng) for _ in range(ctx.pick(800, 10000))]
    hs += [found_history(ctx.rng) for _ in range(ctx.pick(800, 10000))]
    ctx.validate("LoaderTrace", ctx.run_histories(exe, hs), "configuration files")
