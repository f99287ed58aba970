"""sm_random: R01 (random numbers are a function of seed and draws)."""
import struct
from common import MC

def bits(x):
    return "x%016x" % struct.unpack("<Q", struct.pack("<d", x))[0]

SEEDS = ["0", "1", "2", "42", "5489", "4294967295", "2147483648", "123456789"]

def draw(rng):
    d = rng.choice(["uniform", "rand", "normal", "randn", "lu", "lui"])
    a = b = "0"
    if d == "lu":
        x = rng.choice([0.0, 1.0, -1.0, 1e9, -1e-3, 1 / 3, -1e300, 5e-324])
        y = x + rng.choice([1.0, 2.0 ** -30, 1e-9, 1e6, abs(x) * 2.0 ** -50])
        if not y > x:
            y = struct.unpack("<d", struct.pack("<q", struct.unpack("<q", struct.pack("<d", x))[0] + (1 if x >= 0 else -1)))[0]
        a, b = bits(x), bits(y)
    elif d == "lui":
        x, y = rng.choice([(0, 1), (0, 2), (-3, 4), (-2 ** 31, 2 ** 31 - 1), (0, 2 ** 31 - 1), (-2 ** 31, 0), (2 ** 31 - 2, 2 ** 31 - 1), (-1, 0), (-2 ** 30, 2 ** 30 + 1), (rng.randrange(-100, 0), rng.randrange(1, 100))])
        a, b = str(x), str(y)
    return dict(op="draw", d=d, a=a, b=b)

def bare(e):
    return {k: e[k] for k in ("d", "a", "b")}

def history(rng):
    """few seeds and few sequences, so that sequences repeat with different histories before them"""
    seeds = rng.sample(SEEDS, 2)
    progs = [[draw(rng) if rng.random() < 0.85 else dict(op="vec", n=rng.randrange(4)) for _ in range(rng.choice([1, 2, 3, 5, 9]))] for _ in range(2)]
    h = []
    for _ in range(rng.randrange(4, 9)):
        h += [draw(rng) for _ in range(rng.choice([0, 0, 1, 2, 3]))]
        s, p = rng.choice(seeds), rng.choice(progs)
        k = rng.randrange(len(p) + 1) if rng.random() < 0.3 else len(p)
        def alias(e):
            e = dict(e)
            if rng.random() < 0.3 and e.get("d") in ("uniform", "rand"):
                e["d"] = "rand" if e["d"] == "uniform" else "uniform"
            if rng.random() < 0.3 and e.get("d") in ("normal", "randn"):
                e = dict(op="vec", n=1) if e["op"] == "draw" and rng.random() < 0.3 else dict(e, d="randn" if e["d"] == "normal" else "normal")
            return e
        if rng.random() < 0.25 and all(e["op"] == "draw" for e in p):
            h.append(dict(op="fresh", s=s, ds=[bare(e) for e in p]))
        else:
            h.append(dict(op="seed", s=s))
            h += [alias(e) for e in p[:k]]
    if rng.random() < 0.2:
        h.append(dict(op="two", s=seeds[0], s2=seeds[1]))
        h += [draw(rng) for _ in range(2)]
    return threads(rng, h)

def threads(rng, h):
    """some calls are made in other threads, one at a time"""
    p = rng.choice([0, 0, 0.3, 1])
    return [dict(e, th=rng.random() < p) for e in h]

def R01(ctx):
    exe = ctx.build("random", ["random.cpp"], ["sm_random/src/random.cpp", "sm_eigen/src/random.cpp"])
    hs = ctx.generate("RandomMC", MC % (3, "all"), "all histories of three calls")
    if not ctx.quick:
        hs += ctx.generate("RandomMC", MC % (4, "all"), "all histories of four calls")
    if len(hs) > ctx.pick(1000, 10000):
        hs = ctx.rng.sample(hs, ctx.pick(1000, 10000))
    # each of them several times in one process, with different draws before
    out = []
    for i in range(0, len(hs), 10):
        g = hs[i:i + 10]
        h = sum(g, [])
        for x in ctx.rng.sample(g, len(g)):
            h = h + [draw(ctx.rng) for _ in range(ctx.rng.randrange(3))] + [dict(op="seed", s="1")] + x
        out.append(threads(ctx.rng, h))
    ctx.validate("RandomTrace", ctx.run_histories(exe, out), "repeated short histories")
    ctx.validate("RandomTrace", ctx.run_histories(exe, [history(ctx.rng) for _ in range(ctx.pick(600, 8000))]), "random histories")
    # extreme draws: with many numbers from narrow and wide intervals the bounds are reached
    h = []
    for _ in range(ctx.pick(40, 400)):
        h.append(dict(op="seed", s=str(ctx.rng.randrange(2 ** 32))))
        for d, a, b in (("uniform", "0", "1"), ("rand", "0", "1"), ("normal", "0", "1"), ("randn", "0", "1"), ("lu", "-1", "3"), ("lu", "1e6", "1000008"), ("lu", "1e9", "1000000001"), ("lui", "-8", "8"), ("lui", "0", "8"), ("lui", "-2147483648", "2147483647"), ("lui", "0", "2000000000")):
            h.append(dict(op="bulk", n=ctx.pick(20000, 200000), d=d, a=a, b=b))
    ctx.validate("RandomTrace", ctx.run_histories(exe, [h[i:i + 22] for i in range(0, len(h), 22)]), "counts of many numbers")
