"""sm_eigen: E01 (serialised matrices)."""
import struct
from common import MC, STATELESS

F = -1
TYPES = dict(d23=(2, 3, "d"), d31=(3, 1, "d"), d14=(1, 4, "d"), d22=(2, 2, "d"), dX3=(F, 3, "d"), dX1=(F, 1, "d"), d2X=(2, F, "d"), d1X=(1, F, "d"), dXX=(F, F, "d"), dMM=(F, F, "d"),
             rXX=(F, F, "d"), r23=(2, 3, "d"), r2X=(2, F, "d"), rX3=(F, 3, "d"), fXX=(F, F, "f"), f22=(2, 2, "f"), fX1=(F, 1, "f"), f1X=(1, F, "f"), iXX=(F, F, "i"), i1X=(1, F, "i"), iX2=(F, 2, "i"),
             cXX=(F, F, "c"), c2X=(2, F, "c"), T44=(4, 4, "d"), T34=(3, 4, "d"), T33=(3, 3, "f"))

def order(n): return n[0] == "r"
def kind(n): return n if n[0] == "T" else "m"

def readable(m, n, u):
    return TYPES[n][2] == TYPES[u][2] and kind(n) == kind(u) and (order(n) == order(u) or m["r"] <= 1 or m["c"] <= 1)

def number(rng, sc, f):
    if sc == "i":
        return str(rng.choice([0, 1, -1, 7, rng.randrange(-10 ** 5, 10 ** 5)]))
    if sc == "c":
        return number(rng, "d", f) + "i" + number(rng, "d", f)
    if rng.random() < 0.5:
        return str(rng.randrange(-99, 99))
    x = rng.choice([0.1, -1 / 3, 1e-300, 1e300, 5e-324, -0.0, 1.7976931348623157e308, rng.random(), rng.gauss(0, 1e6), 1e22, 123456.789] + ([float("inf"), float("-inf"), float("nan")] if f == "binary" else [])) if sc == "d" else \
        rng.choice([0.1, -1 / 3, 1e-38, 3e38, 1e-45, -0.0, rng.random(), 3.4028234e38, 16777217.5] + ([float("inf"), float("nan")] if f == "binary" else []))
    b = struct.pack("<d", x) if sc == "d" else struct.pack("<f", x)
    x = struct.unpack("<d" if sc == "d" else "<f", b)[0]
    if x == x and abs(x) < 1e6 and x == int(x) and not (x == 0 and b[-1] == 128):
        return str(int(x))
    return "x%0*x" % (2 * len(b), int.from_bytes(b, "little"))

def matrix(rng, n, f):
    t = TYPES[n]
    big = 4 if n == "dMM" else rng.choice([4, 4, 12])
    r = rng.randrange(big + 1) if t[0] == F else t[0]
    c = rng.randrange(big + 1) if t[1] == F else t[1]
    return dict(r=r, c=c, d=[number(rng, t[2], f) for _ in range(r * c)])

def fits(m, n):
    return TYPES[n][0] in (F, m["r"]) and TYPES[n][1] in (F, m["c"])

def history(rng):
    h, var, files = [], {n: dict(r=max(t[0], 0), c=max(t[1], 0), d=["0i0" if t[2] == "c" else "0"] * (max(t[0], 0) * max(t[1], 0))) for n, t in TYPES.items()}, {}
    some = rng.sample(sorted(TYPES), rng.choice([3, 6, 12]))
    def value(n, f):
        if rng.random() < 0.7:
            var[n] = matrix(rng, n, f)
            h.append(dict(op="set", ty=n, v=var[n]))
        elif f != "binary" and any(x[:1] == "x" and ("7ff" in x or "fff" in x or "7f8" in x or "7fc" in x) for x in var[n]["d"]):
            var[n] = matrix(rng, n, f)
            h.append(dict(op="set", ty=n, v=var[n]))
    def target(m, n, maps=None):
        # within one archive each type is read as one other type: the formats describe a class at its first occurrence
        if maps and n in maps:
            if rng.random() < 0.3:
                value(maps[n], "text")
            return maps[n]
        us = [u for u in TYPES if readable(m, n, u) and (maps is None or (u not in maps.values() and order(u) == order(n)))]
        good = [u for u in us if fits(m, u) and (u != "dMM" or (m["r"] <= 4 and m["c"] <= 4))]
        bad = [u for u in us if not fits(m, u)]
        u = rng.choice(bad) if bad and rng.random() < 0.15 else rng.choice([n if n in good else good[0], rng.choice(good)]) if good else rng.choice(bad)
        if maps is not None:
            maps[n] = u
        if rng.random() < 0.5 and u != n:
            value(u, "text")
        return u
    for _ in range(rng.choice([1, 2, 4])):
        f = rng.choice(["text", "binary", "xml"])
        if rng.random() < 0.4:
            name = rng.choice("ab")
            n = rng.choice(some)
            value(n, f)
            tag = rng.choice(["-", "", "object", "m", "a_b"]) if f == "xml" else "-"
            h.append(dict(op="fsave", name=name, f=f, ty=n, tag=tag))
            files[name] = (n, dict(var[n]), f, tag)
        if files and rng.random() < 0.5:
            name = rng.choice(sorted(files))
            n, m, f2, tag = files[name]
            u = target(m, n)
            if tag in ("-", "", "object"):
                tag = rng.choice(["-", "", "object"]) if f2 == "xml" else "-"
            if rng.random() < 0.1:
                h.append(dict(op="fload", name="z", f=f2, ty=u, tag=tag))
            h.append(dict(op="fload", name=name, f=f2, ty=u, tag=tag))
            if fits(m, u):
                var[u] = m
            continue
        h.append(dict(op="create", f=f))
        items, maps = [], {}
        for _ in range(rng.choice([1, 2, 5])):
            n = rng.choice(some)
            value(n, f)
            h.append(dict(op="save", ty=n))
            items.append((n, dict(var[n])))
        h.append(dict(op="open"))
        for n, m in items:
            u = target(m, n, maps)
            if u == "dMM" and max(m["r"], m["c"]) > 4:
                break
            h.append(dict(op="load", ty=u))
            if not fits(m, u):
                break
            var[u] = m
    return h + [dict(op="show", ty=n) for n in some]

def E01(ctx):
    exe = ctx.build("matrices", ["matrices.cpp"], [], libs=["boost_serialization", "boost_filesystem", "boost_system"], opt="-O0")
    for mode in ("one", "file", "two"):
        hs = ctx.generate("MatricesMC", MC % (0, mode), "matrices of every type: " + mode)
        n = len(hs)
        k = ctx.pick(1500, 15000)
        if n > k:
            hs = ctx.rng.sample(hs, k)
        ctx.validate("MatricesTrace", ctx.run_histories(exe, hs), "%d of %d: %s" % (len(hs), n, mode))
    ctx.validate("MatricesTrace", ctx.run_histories(exe, [history(ctx.rng) for _ in range(ctx.pick(800, 8000))]), "random histories")

# ------------------------------------------------------------------ E02, E03
def ints(rng, r, c, lo, hi):
    return [[rng.randrange(lo, hi + 1) for _ in range(c)] for _ in range(r)]

def deco(rng, e):
    """the choices that do not change what the result must be"""
    if e["op"] == "sqrt":
        e.update(ty=rng.choice(["dyn", "fixed", "row", "float"]), form=rng.choice(["plain", "expr", "block", "used"]), scale=rng.choice([0, 0, 3, -10, 30]))
        if e["ty"] == "float":
            e["scale"] = rng.choice([0, 3, -3])
    elif e["op"] == "diff":
        ident = all(e["dd"][i][j] == (i == j) for i in range(e["n"]) for j in range(e["n"]))
        e.update(ty=rng.choice(["double", "double", "fixed", "float", "floatd"]), via=rng.choice(["class", "function", "moved"]) if ident else "moved", eps=rng.choice([99, 99, -20, -10, -1, 0, 2]))
        if e["ty"][:5] == "float":
            e["eps"] = rng.choice([99, -6, -1, 1])
    elif e["op"] == "finite":
        e.update(exc=rng.choice(["First", "Second"]), dbg=rng.random() < 0.5, flt=rng.random() < 0.3, msg=rng.choice(["it", "", "x < 0: %d"]))
    return e

def root_call(rng):
    # kept small: the decomposition does not pivot on the remaining diagonal, so rounding errors of singular matrices grow
    n, hi = rng.choice([(rng.randrange(6), rng.choice([1, 3])), (rng.randrange(5), 9), (rng.randrange(4), 40)])
    k = rng.choice([n, n, max(n - 1, 0), 1, n + 2])
    e = deco(rng, dict(op="sqrt", n=n, w=k, g=ints(rng, n, k, -hi, hi)))
    if hi > 3 or n > 3:
        e["ty"] = rng.choice(["dyn", "fixed", "row"])
    return e

def diff_call(rng):
    n, m = rng.randrange(6), rng.randrange(5)
    hi = rng.choice([1, 3])
    ident = rng.random() < 0.6
    e = dict(op="diff", n=n, m=m, q=[ints(rng, n, n, -hi, hi) for _ in range(m)], b=ints(rng, m, n, -9, 9), cc=[rng.randrange(-9, 10) for _ in range(m)],
             x=[rng.choice([0, 1, -1, rng.randrange(-9, 10)]) for _ in range(n)], dd=[[int(i == j) for j in range(n)] for i in range(n)] if ident else ints(rng, n, n, -2, 2))
    e = deco(rng, e)
    if e["ty"] == "double" and rng.random() < 0.3 and e["eps"] != 99:
        e["x"] = [rng.choice([1, -1]) * rng.randrange(1, 3000) for _ in range(n)]
    if e["ty"] not in ("double", "fixed") and e["eps"] == 99:
        e["q"] = [[[0 if rng.random() < 0.8 else v for v in r] for r in q] for q in e["q"]]
        e["x"] = [rng.randrange(-2, 3) for _ in range(n)]
    return e

def finite_call(rng):
    r, c = rng.randrange(5), rng.randrange(5)
    p = rng.choice([0, 0.05, 0.3, 1])
    return deco(rng, dict(op="finite", rr=r, c=c, v=[[rng.randrange(1, 4) if rng.random() < p else 0 for _ in range(c)] for _ in range(r)]))

def number2(rng, k=None):
    if rng.random() < 0.06:
        return dict(s=rng.choice(["inf", "ninf", "nan"]), q=0, k=0)
    return dict(s="num", q=rng.choice([0, rng.randrange(-99, 100), rng.randrange(-99, 100)]), k=rng.choice([0, 1, 2, 5, 8, 17]) if k is None else k)

def comparison(rng):
    p = rng.choice([0, 1, 8, 16, 80, 400, rng.randrange(800)])
    if rng.random() < 0.4:
        k = rng.choice([0, 0, 2, 8, None])
        return dict(op="rel", a=number2(rng, k), b=number2(rng, k), p=p)
    f = rng.choice(["eq", "near", "enear", "mx", "fin"])
    r, c = rng.randrange(4), rng.randrange(4)
    r2, c2 = (r, c) if rng.random() < 0.85 else (rng.randrange(4), rng.randrange(4))
    a = [[number2(rng, 0) for _ in range(c)] for _ in range(r)]
    b = [[dict(a[i][j]) if i < r and j < c and rng.random() < 0.7 else number2(rng, 0) for j in range(c2)] for i in range(r2)]
    for row in b:
        for x in row:
            if x["s"] == "num" and rng.random() < 0.3:
                x["q"] += rng.choice([-1, 1, 3])
    return dict(op="mat", f=f, rr=r, c=c, r2=r2, c2=c2, a=a, b=b, p=p)

def fns(ctx, modes, extra, builds):
    for name, defs, on in builds:
        exe = ctx.build(name, ["eigenfns.cpp"], [], libs=["gtest"], defs=defs, opt="-O0")
        cs = []
        for mode, d in modes:
            hs = ctx.generate("EigenFnsMC", MC % (d, mode), "every call: " + mode)
            n = len(hs)
            k = ctx.pick(2500, 40000)
            if n > k:
                hs = ctx.rng.sample(hs, k)
            cs += [deco(ctx.rng, h[0]) for h in hs]
        ctx.rng.shuffle(cs)
        cs += [ctx.rng.choice(extra)(ctx.rng) for _ in range(ctx.pick(4000, 60000))]
        for c in cs:
            if c["op"] == "finite":
                c["on"] = on or not c["dbg"]
        ctx.validate("EigenFnsTrace", ctx.run_histories(exe, [cs[i:i + 20] for i in range(0, len(cs), 20)]), "calls, " + name, cfg=STATELESS)

def E02(ctx):
    fns(ctx, [("sqrt", ctx.pick(2, 3)), ("diff", 0)], [root_call, diff_call], [("eigenfns", [], True)])

def E03(ctx):
    fns(ctx, [("finite", 0), ("rel", 0), ("mat", 0)], [finite_call, comparison, comparison], [("eigenfns", [], True), ("eigenfns_n", ["NDEBUG"], False)])
