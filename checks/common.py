"""sm_common: C01 (ids), C02 (strings), C03 (comparisons), C04 (comparison macros), C05 (assertions), C06 (rounding, roots)."""
import math, struct
from concurrent.futures import ThreadPoolExecutor

MC = "INIT Init\nNEXT Next\nINVARIANT Laws\nCONSTRAINT Bound\nCHECK_DEADLOCK FALSE\nCONSTANTS Depth = %d\n Mode = \"%s\"\n"

# ----------------------------------------------------------------------- C01
def hexes(rng):
    b = lambda: [ord(rng.choice("0123456789abcdefABCDEF")) for _ in range(32)]
    x = rng.random()
    if x < 0.25:
        t = [48] * 32
        t[rng.randrange(32)] = ord(rng.choice("01fF8"))
    elif x < 0.5:
        t = b()
    elif x < 0.6:
        t = [ord(rng.choice("fF"))] * 32
    elif x < 0.8:
        t = b()
        t[rng.randrange(32)] = rng.choice([0, 32, 43, 45, 47, 58, 64, 71, 96, 103, 120, 88, 200, 255, 10])
    else:
        t = b()
        t = t[:rng.choice([0, 1, 30, 31])] if rng.random() < 0.5 else t + [48] * rng.choice([1, 2, 32])
    return t

def near(rng, pool):
    v = list(rng.choice(pool))
    k = rng.randrange(16)
    v[k] = rng.randrange(16)
    return v

def ids_history(rng, n):
    h, pool = [], [[15] * 16, [0] * 16, [7] + [15] * 15, [8] + [0] * 15, [0] * 8 + [15] * 8, [0] * 8 + [7] + [15] * 7, [0] * 7 + [1] + [0] * 8]
    tp = [hexes(rng) for _ in range(4)]
    for _ in range(n):
        i, j, alt = rng.randrange(4) + 1, rng.randrange(4) + 1, rng.random() < 0.5
        o = rng.choice(["hdef", "hinv", "hfrom", "hfrom", "hfrom", "hcopy", "hwords", "hrand", "hobs", "hobs", "hins", "hins", "hera", "hhas",
                        "dset", "dset", "dset", "ddef", "dclear", "dcopy", "dconv", "dswap", "dpre", "dpost", "dser", "drand", "dobs", "dobs", "dins", "dins", "dera", "dhas"])
        e = dict(op=o, i=i, j=j, alt=alt)
        if o == "hfrom":
            t = list(rng.choice(tp)) if rng.random() < 0.5 else hexes(rng)
            if rng.random() < 0.3 and len(t) == 32:
                t[rng.randrange(32)] = ord(rng.choice("0123456789abcdefABCDEF"))
            tp.append(t)
            e["s"] = t
        elif o == "dset":
            e["v"] = near(rng, pool) if rng.random() < 0.7 else [rng.randrange(16) for _ in range(16)]
            pool.append(e["v"])
        elif o == "dser":
            e["f"] = rng.choice(["text", "binary", "xml"])
        h.append(e)
    return h + [dict(op="hobs"), dict(op="dobs")]

def C01(ctx):
    exe = ctx.build("ids", ["ids.cpp"], ["sm_common/src/hash_id.cpp"], libs=["boost_serialization"])
    con = ctx.build("idsconc", ["idsconc.cpp"], ["sm_common/src/hash_id.cpp"], sched=True)
    hs = []
    for mode in ("hash", "num"):
        for d in range(1, ctx.pick(2, 3) + 1):
            hs += ctx.generate("IdsMC", MC % (d, mode), "%s depth %d" % (mode, d))
    for h in hs:
        for e in h:
            if e["op"] == "dser":
                e["f"] = ctx.rng.choice(["text", "binary", "xml"])
    if len(hs) > ctx.pick(2500, 30000):
        hs = ctx.rng.sample(hs, ctx.pick(2500, 30000))
    ctx.validate("IdsTrace", ctx.run_histories(exe, hs), "all short histories of ids")
    hs = [ids_history(ctx.rng, ctx.rng.choice([15, 30, 60])) for _ in range(ctx.pick(500, 6000))]
    ctx.validate("IdsTrace", ctx.run_histories(exe, hs), "random histories of ids")
    # runs of the program, one after another: one history
    runs = []
    for _ in range(ctx.pick(6, 40)):
        runs += ctx.run_histories(exe, [[dict(op="hrand", i=1 + k % 4, j=1, alt=k % 2 == 0) for k in range(4)] + [dict(op="hmany", n=ctx.pick(20000, 200000))]])[0]
    ctx.validate("IdsTrace", [runs], "random ids of several runs of the program")
    reqs = []
    for nt, per in ((2, 1), (2, 2), (3, 1), (3, 2)):
        sc = dict(threads=nt, per=per)
        reqs.append(dict(sc=sc, mode="random", runs=ctx.pick(150, 1500), seed=ctx.seed * 31 + nt))
        reqs.append(dict(sc=sc, mode="pct", runs=ctx.pick(150, 1500), seed=ctx.seed * 37 + nt))
    reqs.append(dict(sc=dict(threads=2, per=2), mode="dfs", runs=ctx.pick(300, 5000), seed=ctx.seed, bound=2))
    hs = []
    for k, how, ev in ctx.run_schedules(con, reqs):
        h = []
        for e in ev:
            if e.get("op") == "rand":
                h.append(dict(op="rand", n=e["n"], r=dict(k="first", first=e["first"], valid=e["valid"])))
            else:
                h.append(dict(op="rand", n=0, r=dict(k="exc", t=str(e))))
        hs.append(h)
    ctx.validate("IdsTrace", hs, "ids generated by threads")

# ----------------------------------------------------------------------- C02
def word(rng, alphabet, n):
    return [ord(rng.choice(alphabet)) for _ in range(rng.randrange(n + 1))]

def string_call(rng):
    o = rng.choice(["replace", "replace", "rreplace", "rreplace", "rreplace", "lpad", "trail", "ts", "padint", "padstr", "paddbl", "fixed", "sci", "sci", "tuple", "list", "arr", "plist",
                    "setenv", "setenv", "unsetenv", "subst", "subst", "subst", "subst", "progress", "progress0"])
    e = dict(op=o, alt=rng.random() < 0.4)
    al = rng.choice(["ab", "abc", "a", "/$a"])
    big = lambda: rng.choice([rng.randrange(-10, 10), rng.randrange(-2000, 2000), rng.randrange(-2000, 2000)])
    if o in ("replace", "rreplace"):
        e.update(s=word(rng, al, rng.choice([3, 6, 12])), t=ord(rng.choice(al)), c=ord(rng.choice(al + "x")), n=rng.choice([0, 0, 1, 1, 2, 3, 7, 20]))
    elif o in ("lpad", "padstr"):
        e.update(s=word(rng, "ab 0-", 6), n=rng.choice([0, 1, 3, 5, 6, 7, 12]), c=rng.choice([32, 48, 42]))
    elif o == "trail":
        e.update(s=word(rng, "/a\\", 5))
    elif o == "ts":
        e.update(i=rng.choice([big(), rng.randrange(-2 ** 31 + 1, 2 ** 31)]))
    elif o == "padint":
        e.update(i=rng.choice([big(), rng.randrange(-2 ** 31 + 1, 2 ** 31)]), n=rng.randrange(14), c=rng.choice([48, 48, 32, 42]))
    elif o in ("paddbl", "fixed", "sci"):
        e.update(i=big(), k=rng.randrange(7), p=rng.randrange(4), n=rng.choice([0, 1, 5, 8, 10, 15]))
    elif o in ("tuple", "list", "arr"):
        e.update(l=[big() for _ in range(rng.randrange(1 if o == "tuple" else 0, 8))], d=word(rng, ", ", 2), pre=word(rng, "[<", 2), post=word(rng, "]>", 2))
    elif o == "plist":
        e.update(l=[big() for _ in range(rng.randrange(6))], k=rng.randrange(6), p=rng.randrange(4), n=rng.randrange(10), d=word(rng, ", ", 2), pre=word(rng, "[<", 2), post=word(rng, "]>", 2))
    elif o in ("setenv", "unsetenv"):
        e.update(s=rng.choice([[65], [66], word(rng, "AB$(", 2) or [65]]), v=word(rng, "x$()AB", 6))
    elif o == "subst":
        s = []
        if rng.random() < 0.5:
            for _ in range(rng.randrange(10)):
                s += rng.choice([[36, 40], [36, 40], [41], [41], [65], [66], [120], [36], [40]])
        else:
          for _ in range(rng.randrange(5)):
            s += rng.choice([word(rng, "x$()A", 3), [36, 40] + word(rng, "AB$(", 2) + [41], [36, 40] + word(rng, "AB", 1) + [41]])
        e.update(s=s)
    elif o == "progress":
        k = rng.randrange(8)
        e.update(i=rng.choice([rng.randrange(-1, 2 ** k + 2), 2 ** k]), k=k)
    else:
        e.update(i=rng.randrange(3), n=rng.choice([0, -1, -100]))
    return e

def C02(ctx):
    exe = ctx.build("strings", ["strings.cpp"], ["sm_common/src/progress_info.cpp"])
    for mode, d in (("replace", ctx.pick(4, 6)), ("pad", 0), ("num", 0), ("list", 0), ("env", ctx.pick(5, 7)), ("tokens", ctx.pick(5, 7))):
        hs = ctx.generate("StringsMC", MC % (d, mode), "every call: " + mode)
        n = len(hs)
        if n > ctx.pick(1500, 25000):
            hs = ctx.rng.sample(hs, ctx.pick(1500, 25000))
        for h in hs:
            h[-1]["alt"] = ctx.rng.random() < 0.5
        ctx.validate("StringsTrace", ctx.run_histories(exe, hs), "%d of %d calls: %s" % (len(hs), n, mode))
    hs = [[string_call(ctx.rng) for _ in range(30)] for _ in range(ctx.pick(250, 4000))]
    ctx.validate("StringsTrace", ctx.run_histories(exe, hs), "random calls")

# ------------------------------------------------------------------ C03, C06
STATELESS = "INIT TInit\nNEXT TNext\nINVARIANT TAccepted\nCHECK_DEADLOCK FALSE\n"

def bits(x):
    return "%016x" % struct.unpack("<Q", struct.pack("<d", x))[0]

def real(rng, ty):
    """a finite number of the type, with headroom for one doubling of the difference"""
    e = rng.choice([0, 0, 1, -1, 10, -10]) if rng.random() < 0.6 else rng.randrange(-125, 120) if ty == "float" else rng.randrange(-1040, 1015)
    x = math.ldexp(rng.choice([1.0, 1.0, 1 + 2.0 ** -23, 1.5, 1.0 + rng.random()]), e)
    x = rng.choice([x, x, x, -x, 0.0, -0.0, 5e-324 if ty == "double" else 1e-45])
    return struct.unpack("<f", struct.pack("<f", x))[0] if ty == "float" else x

def laws(rng):
    ty = rng.choice(["double", "double", "float"])
    a = real(rng, ty)
    x = rng.random()
    eps = math.ldexp(1 + rng.random(), rng.choice([-52, -40, -23, -10, -3, -1, 0, 1, -60, -30]))
    if x < 0.3:
        b = real(rng, ty)
    elif x < 0.5:
        b = a * (1 + rng.choice([-1, 1]) * eps)
    elif x < 0.6:
        b = a
    elif x < 0.8:
        b = a + rng.choice([-1, 1]) * abs(a) * math.ldexp(rng.randrange(4), -52 if ty == "double" else -23)
    else:
        b = -a * rng.choice([1, 1 - eps, 0.5])
    return dict(op="laws", ty=ty, ba=bits(a), bb=bits(b), be=bits(eps))

def number_calls(ctx, exe, modes, extra):
    for mode, d in modes:
        hs = ctx.generate("NumericsMC", MC % (d, mode), "every call: " + mode)
        n = len(hs)
        if n > ctx.pick(4000, 60000):
            hs = ctx.rng.sample(hs, ctx.pick(4000, 60000))
        if mode == "cmp":
            for h in hs:
                # the relations are invariant under scaling by powers of two
                h[0]["scale"] = ctx.rng.choice([0, 0, 1, -7, 60, -60] + ([900, -900] if h[0]["ty"] != "float" else []) + [tiny(h[0])])
        hs = [sum(hs[i:i + 20], []) for i in range(0, len(hs), 20)]
        ctx.validate("NumericsTrace", ctx.run_histories(exe, hs), "calls of every kind: " + mode, cfg=STATELESS)
    hs = [[extra(ctx.rng) for _ in range(30)] for _ in range(ctx.pick(200, 4000))]
    ctx.validate("NumericsTrace", ctx.run_histories(exe, hs), "random numbers", cfg=STATELESS)

def tiny(c):
    # the smallest scale at which the comparison is still exact: below the normalised numbers
    return dict(double=-1074, float=-149, ldouble=-16445)[c["ty"]] + c["k"] + c["j"]

def some_cmp(rng):
    if rng.random() < 0.6:
        return laws(rng)
    j = rng.randrange(11)
    a = rng.choice([rng.randrange(-1000, 1000), rng.choice([2 ** 10, 999, 1000, 0])])
    m = rng.randrange(1, 2 ** min(j, 10) + 1) if rng.random() < 0.9 else rng.randrange(-2, 3)
    # around the boundary |a - b| = max * m / 2^j
    b = a - rng.choice([-1, 1]) * (abs(a) * m // 2 ** j + rng.randrange(-1, 2)) if rng.random() < 0.7 else rng.randrange(-1000, 1000)
    c = dict(op="cmp", a=a, b=b, k=rng.randrange(6), m=m, j=j, ty=rng.choice(["double", "float", "ldouble"]))
    c["scale"] = rng.choice([0, 0, 3, -20, 50, tiny(c)])
    return c

def some_number(rng):
    x = rng.random()
    if x < 0.5:
        ty, base = rng.choice(["double", "float"]), rng.choice([0, 0, 0, 31, 40, 52])
        q = rng.randrange(4000)
        if base:
            q = q * 4 if ty == "double" else 0
        op = rng.choice(["round", "rint", "lrint"]) if base == 0 else rng.choice(["round", "lrint"])
        return dict(op=op, ty=ty, neg=rng.random() < 0.5, base=base, q=q, nudge=rng.choice([-1, 0, 0, 1]) if q and base == 0 else 0)
    if x < 0.75:
        return dict(op="roots", a=rng.choice([1, -1, 3, -5, 16]), x1=rng.randrange(-2000, 2000), x2=rng.choice([rng.randrange(-2000, 2000), 0, 1]), t=rng.randrange(-60, 61))
    return dict(t=rng.randrange(-60, 61), op="quad", a=rng.choice([1, -1, 2, 3, -7, 100]), b=rng.choice([rng.randrange(-30000, 30000), rng.randrange(-9, 9)]), c=rng.randrange(-50, 50))

def C03(ctx):
    exe = ctx.build("numerics", ["numerics.cpp"], [])
    number_calls(ctx, exe, [("cmp", ctx.pick(12, 40)), ("ulp", 0)], some_cmp)

def C06(ctx):
    exe = ctx.build("numerics", ["numerics.cpp"], [])
    number_calls(ctx, exe, [("round", 0), ("sgn", 0), ("roots", ctx.pick(9, 40)), ("quad", 0)], some_number)

# ----------------------------------------------------------------------- C04
def node(rng, near=None):
    lf = lambda: dict(x=rng.randrange(2), y=rng.randrange(2))
    opt = lambda v: rng.choice([[], [v()], [v()]])
    n = dict(key=rng.randrange(2), leaf=lf(), p=opt(lf), s=opt(lambda: rng.randrange(2)), t=opt(lf), ip=opt(lambda: rng.randrange(2)))
    if near:
        m = dict(near)
        for k in rng.sample(sorted(n), rng.choice([0, 0, 1, 1, 2])):
            m[k] = n[k]
        return m
    return n

KIN_PARTS = [("T", 2), ("UT", 3), ("HP", 1), ("UHP", 2), ("UV3", 2), ("UV1", 2), ("UV6", 2)]

def same_history(rng):
    h, nodes = [], {}
    zero = dict(key=0, leaf=dict(x=0, y=0), p=[], s=[], t=[], ip=[])
    for _ in range(rng.choice([20, 40])):
        o = rng.choice(["set", "set", "verbose", "same", "same", "samev", "memv", "differ", "and", "and", "or", "ptr", "kin"])
        i, j, k = rng.randrange(3) + 1, rng.randrange(3) + 1, rng.randrange(3) + 1
        e = dict(op=o, i=i, j=j, k=k, b=rng.random() < 0.5)
        if o == "set":
            e["v"] = nodes[i] = node(rng, nodes.get(j, zero) if rng.random() < 0.8 else None)
        elif o == "ptr":
            e.update(i=rng.randrange(4), j=rng.randrange(4), sh=rng.random() < 0.5, dep=rng.random() < 0.3)
        elif o == "kin":
            ty, n = rng.choice(KIN_PARTS)
            e.update(ty=ty, d=sorted(rng.sample(range(1, n + 1), rng.randrange(n + 1))), at=rng.randrange(36), tiny=rng.random() < 0.5)
        h.append(e)
    return h

KIN = ["sm_kinematics/src/%s.cpp" % x for x in ("Transformation", "UncertainTransformation", "HomogeneousPoint", "UncertainHomogeneousPoint", "quaternion_algebra", "transformations",
       "rotations", "homogeneous_coordinates", "RotationalKinematics")] + ["sm_random/src/random.cpp"]

def C04(ctx):
    exe = ctx.build("same", ["same.cpp"], KIN)
    hs = ctx.generate("SameMC", MC % (0, "kin"), "library types, one part different") + ctx.generate("SameMC", MC % (ctx.pick(1, 2), "nodes"), "pairs of objects")
    if len(hs) > ctx.pick(3000, 20000):
        hs = ctx.rng.sample(hs, ctx.pick(3000, 20000))
    # one part different in each of its entries
    hs += [[dict(op="kin", ty=ty, d=[d], at=at, tiny=tiny) for tiny in (False, True) for at in range(36)]
           for ty, n in KIN_PARTS for d in range(1, n + 1)]
    hs += [same_history(ctx.rng) for _ in range(ctx.pick(300, 5000))]
    ctx.validate("SameTrace", ctx.run_histories(exe, hs), "pairs of objects and random histories")

# ----------------------------------------------------------------------- C05
def assert_call(rng):
    z = dict(s="num", q=0)
    num = lambda: dict(s=rng.choice(["num"] * 8 + ["inf", "ninf", "nan"]), q=0)
    x = rng.random()
    dbg = rng.choice(["", "_DBG"])
    if x < 0.6:
        ty = rng.choice(["double", "float", "int", "unsigned"])
        c = rng.choice([rng.randrange(-2000, 2000), 0]) if ty != "unsigned" else rng.choice([0, 3, 2 ** 31 - 10])
        def v():
            r = num() if ty not in ("int", "unsigned") else dict(z)
            if r["s"] == "num":
                r["q"] = c + rng.choice([0, 0, 1, -1, 2, -3, rng.randrange(-9, 9)])
            return r if ty != "unsigned" else dict(s="num", q=abs(r["q"]))
        op = rng.choice((["NEAR"] if ty != "unsigned" else ["EQ"]) + ["LT", "GE", "LE", "GT", "EQ", "NE", "GE_LT", "GT_LE", "GE_LE", "POSITIVE", "NONNEGATIVE", "NEGATIVE", "NONPOSITIVE", "ZERO", "FINITE", "NOTNAN"])
        e = dict(op=op + dbg, ty=ty, v=v(), b=v(), u=v())
        if op == "NEAR":
            e["u"] = dict(s="num", q=rng.randrange(-4, 5))
        elif ty != "unsigned" and rng.random() < 0.3:
            for k in ("v", "b", "u"):
                if e[k]["s"] == "num":
                    e[k]["q"] -= c
        return e
    v = dict(s="num", q=rng.randrange(2))
    if x < 0.8:
        return dict(op=rng.choice(["TRUE", "FALSE"]) + dbg, ty="bool", v=v, b=z, u=z)
    if x < 0.9:
        return dict(op=rng.choice(["NULL", "NOTNULL", "NOTNULL_DBG"]), ty=rng.choice(["ptr", "shared"]), v=v, b=z, u=z)
    return dict(op=rng.choice(["THROW", "THROW_DBG", "THROW_SFP", "throw"]), ty="bool", v=v, b=z, u=z)

def C05(ctx):
    builds = [("asserts", [], True), ("asserts_n", ["NDEBUG"], False), ("asserts_s", ["NDEBUG", "SM_ALWAYS_ASSERT"], True), ("asserts_a", ["NDEBUG", "ALWAYS_ASSERT"], True)]
    with ThreadPoolExecutor(4) as pool:
        exes = {b[0]: pool.submit(ctx.build, b[0], ["asserts.cpp"], [], defs=b[1], opt="-O0") for b in builds}
    exes = {k: v.result() for k, v in exes.items()}
    gen = []
    for mode in ("reals", "ints", "other"):
        g = ctx.generate("AssertsMC", MC % (ctx.pick(2, 4), mode), "every call: " + mode)
        gen += [h[0] for h in (g if len(g) <= ctx.pick(1500, 20000) else ctx.rng.sample(g, ctx.pick(1500, 20000)))]
    for name, defs, on in builds:
        exe = exes[name]
        cs = [dict(c) for c in (gen if on and not defs else ctx.rng.sample(gen, min(len(gen), ctx.pick(800, 15000))))] + [assert_call(ctx.rng) for _ in range(ctx.pick(1500, 30000))]
        for c in cs:
            c.update(on=on, form=ctx.rng.choice(["name", "cond", "eval"]), sel=ctx.rng.random() < 0.5, exc=ctx.rng.choice(["std::runtime_error", "Base", "Derived", "Logic"]),
                     msg=ctx.rng.choice(["", "it", "x < 0: %d"]))
        cs += [dict(op="position", fn=ctx.rng.choice(["f", "operator()", "", "~X"]), file=ctx.rng.choice(["a.cpp", "/x y/b.hpp", "", "c:1"]), line=ctx.rng.choice([0, 1, 77, 2 ** 31 - 1])) for _ in range(20)]
        ctx.validate("AssertsTrace", ctx.run_histories(exe, [cs[i:i + 20] for i in range(0, len(cs), 20)]), "calls, " + (" ".join(defs) or "debug build"), cfg=STATELESS)
