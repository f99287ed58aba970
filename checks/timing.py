"""sm_timing: T01, T02 (TimestampCorrector), T03, T04 (Timer/Timing), T05 (NsecTime)."""
import vf

TC_CFG = "INIT Init\nNEXT Next\nINVARIANT %s\nCONSTRAINT Bound\nCHECK_DEADLOCK FALSE\nCONSTANTS Depth = %d\nMaxY = %d\nMode = \"%s\"\n"
TR_CFG = "INIT TInit\nNEXT TNext\nINVARIANT TAccepted TSafe\nCHECK_DEADLOCK FALSE\n"

# number formats: (int?, unit, base remote, base local, integer unit 1?, tolerance in 1/1024)
FORMATS = [(False, "1", "0", "0", False, 2), (False, "0.0009765625", "0", "0", False, 2),
           (True, "1", "0", "0", True, 1024 + 2), (True, "1000000000", "0", "0", False, 2),
           (True, "1000000000", "1600000000000000000", "1300000000000000512", False, 2),
           (False, "1", "1600000000", "1500000000", False, 4)]

def init(f):
    return dict(op="init", int=f[0], unit=f[1], bx=f[2], by=f[3], ti=f[4], tol=f[5])

def tc_random(rng, n, three):
    """observations of a clock with drift, offset and delays, with queries"""
    f = rng.choice(FORMATS)
    h = [init(f)]
    x = rng.randrange(5)
    num, den = rng.choice([(1, 1), (1, 1), (5, 4), (3, 4), (0, 1), (1, 2), (2, 1), (11, 10)])
    style = rng.choice(["const", "rand", "rand", "big", "rare", "decr", "wild"])
    per = rng.choice([0, 1, 2, 3, 5, 10, 21])
    y0 = rng.randrange(20)
    big = 0
    for i in range(n):
        a = rng.random()
        if a < 0.12:
            h.append(dict(op=rng.choice(["get", "get", "slope", "offset"]), x=rng.randrange(max(1, x + 5))))
        elif a < 0.15:
            h.append(dict(op="reset"))
        else:
            if rng.random() < 0.06:
                xx = max(0, x - rng.choice([0, 0, 1, 3]))
            else:
                xx = x + rng.choice([1, 1, 1, 2, 3, 7])
            d = {"const": 0, "rand": rng.randrange(5), "big": rng.randrange(40), "rare": rng.choice([0, 0, 0, 0, 30]),
                 "decr": max(0, 60 - 2 * i), "wild": rng.choice([0, 0, 1, 2, 50, 90])}[style]
            if style == "wild" and rng.random() < 0.1:
                y0 = rng.randrange(60)
            e = dict(op="corr", x=xx, y=y0 + xx * num // den + d)
            if (three and rng.random() < 0.95) or rng.random() < 0.02:
                e.update(op="corr3", per=per)
            h.append(e)
            x = max(x, xx)
    return h

def tc(ctx, three):
    exe = ctx.build("timecorr", ["timecorr.cpp"])
    gen = "gen3" if three else "gen2"
    if three:
        ctx.model_check("TimeCorrMC", TC_CFG % ("HullInv LateInv AffineInv MemoryInv", ctx.pick(6, 7), 3, "three"), "switching corrector vs. observation histories")
    else:
        ctx.model_check("TimeCorrMC", TC_CFG % ("HullInv LateInv AffineInv MemoryInv", ctx.pick(5, 6), 5, "two"), "hull vs. all observation sequences")
    hs = []
    for h in ctx.generate("TimeCorrMC", TC_CFG % ("HullInv", ctx.pick(5, 6), 3 if three else 2, gen), "all observation sequences"):
        f = ctx.rng.choice(FORMATS)
        hs.append([init(f)] + h + [dict(op="slope", x=0), dict(op="get", x=ctx.rng.randrange(12)), dict(op="offset", x=0)])
    ctx.validate("TimeCorrTrace", ctx.run_histories(exe, hs), "exhaustive observation sequences", cfg=TR_CFG)
    hs = [tc_random(ctx.rng, 60, three) for _ in range(ctx.pick(500, 8000))]
    ctx.validate("TimeCorrTrace", ctx.run_histories(exe, hs), "random observation histories", cfg=TR_CFG)

def T01(ctx):
    tc(ctx, False)

def T02(ctx):
    tc(ctx, True)

TM_CFG = "INIT Init\nNEXT Next\nINVARIANT %s\nCONSTRAINT Bound\nCHECK_DEADLOCK FALSE\nCONSTANTS Depth = %d\nMode = \"%s\"\n"
TAGS = ["a", "b", "timer c", "", "a.very.long.tag.of.a.timer", "A"]

def build_timing(ctx):
    return ctx.build("timing", ["timing.cpp"], ["sm_timing/src/Timer.cpp", "sm_timing/src/NsecTimeUtilities.cpp"],
                     libs=["boost_thread", "boost_system", "boost_date_time"])

def tm_random(rng, n, stats):
    h, live, now = [], {}, 0
    tags = rng.sample(TAGS, rng.choice([1, 2, 3, 4]))
    used = []
    for _ in range(n):
        x = rng.random()
        tag = rng.choice(tags)
        byh = rng.random() < 0.5
        if x < 0.2 and now < 1800:      # (all numbers stay within 32 bits in the specification)
            d = rng.choice([0, 1, 3, 10, 50, 99]); now += d
            h.append(dict(op="tick", d=d))
        elif x < 0.4:
            free = [i for i in range(1, 5) if i not in live]
            if free and rng.random() < 0.93:
                i = rng.choice(free); live[i] = 1
                h.append(dict(op="new", id=i, tag=tag, byh=byh, bad=False, stopped=rng.random() < 0.4))
            else:
                h.append(dict(op="new", id=9, tag=tag, byh=byh, bad=True, stopped=rng.random() < 0.5))
        elif x < 0.6:
            if live:
                h.append(dict(op=rng.choice(["start", "stop", "isTiming", "start", "stop"]), id=rng.choice(list(live))))
        elif x < (0.67 if stats else 0.7):
            if live:
                i = rng.choice(list(live)); del live[i]
                h.append(dict(op="destroy", id=i))
        elif x < 0.72 and not stats:
            h.append(dict(op="reset", tag=tag, byh=byh))
        elif x < 0.72:
            ds = [rng.choice([0, 1, 2, 7, 40, 99]) for _ in range(rng.choice([1, 3, 30, 60]))]
            if sum(len(e.get("ds", [])) for e in h) + len(ds) <= 100 and now + sum(ds) <= 1800:
                now += sum(ds)
                h.append(dict(op="burst", tag=tag, ds=ds))
        elif x < 0.85:
            h.append(dict(op="stats", tag=tag, byh=byh))
        elif x < 0.88:
            h.append(dict(op="reset", tag=tag, byh=byh))
        elif x < 0.93:
            h.append(dict(op="print", sort=rng.choice(["none", "total", "mean", "std", "min", "max", "num"])))
        elif x < 0.95:
            h.append(dict(op="badget", what=rng.choice(["total", "mean", "num", "var", "min", "max", "hz", "reset", "tag"])))
        elif x < 0.97:
            h.append(dict(op="handle", tag=tag))
        elif x < 0.985:
            h.append(dict(op="getTag", tag=tag, bad=False))
        else:
            h.append(dict(op="tstr", s=rng.choice([0, 1, 59, 60, 61, 3599, 3600, 86399, 359999, rng.randrange(400000)]), us=rng.choice([0, 1, 250000, 999999])))
    return h

def tv(ctx, hists, what):
    ctx.validate("TimingTrace", ctx.run_histories(ctx.exe, hists), what, cfg=TR_CFG)

def T03(ctx):
    ctx.exe = build_timing(ctx)
    ctx.model_check("TimingMC", TM_CFG % ("Inv OneSamplePerStop", ctx.pick(3, 4), "mc"), "timer life cycles, ticks, resets")
    tv(ctx, [tm_random(ctx.rng, 50, True) for _ in range(ctx.pick(500, 6000))], "random statistics histories")
    timing_threads(ctx)

# threads that share the registry (T03), under the deterministic scheduler
CONC_TAGS = ["a", "b", "cc", "d", "long tag"]
def timing_program(rng, tags, ids, known, n):
    ops, open_ = [], {}
    known = set(known)
    for _ in range(n):
        t = rng.choice(tags)
        h = t in known and rng.random() < 0.5
        x = rng.random()
        if x < 0.4:
            i = next(ids)
            open_[i] = t
            ops.append(dict(op="new", tag=t, id=i, h=h))
        if open_ and x < 0.55:
            i = rng.choice(sorted(open_))
            ops.append(dict(op=rng.choice(["stop", "drop"]), id=i, tag=open_.pop(i), d=rng.choice([0, 1, 5, 20, 3])))
        elif x < 0.65:
            ops.append(dict(op="handle", tag=t))
            known.add(t)
        elif x < 0.7 and t in known:
            ops.append(dict(op="getTag", tag=t))
        elif x < 0.75:
            ops.append(dict(op="reset", tag=t, h=h))
        elif x < 0.8:
            ops.append(dict(op="print", sort=rng.choice(["none", "total", "mean", "std", "min", "max", "num"])))
        elif x >= 0.4:
            ops.append(dict(op=rng.choice(["num", "total", "mean", "min", "max", "var", "hz"]), tag=t, h=h))
    for i in sorted(open_):
        ops.append(dict(op="stop", id=i, tag=open_[i], d=rng.choice([2, 4])))
    return ops

def timing_scenario(rng):
    import itertools
    ids = itertools.count(1)
    tags = rng.sample(CONC_TAGS, rng.choice([1, 2, 4]))
    pre = timing_program(rng, tags, ids, [], rng.choice([0, 0, 3]))
    known = [o["tag"] for o in pre if o["op"] == "handle"]
    return dict(pre=pre, threads=[timing_program(rng, tags, ids, known, rng.choice([1, 2, 4])) for _ in range(rng.choice([2, 2, 3]))],
                final=[dict(op=o, tag=t, h=False) for t in sorted(tags) for o in ("num", "total", "var")] + [dict(op="print", sort="none")])

def timing_threads(ctx):
    exe = ctx.build("timingconc", ["timingconc.cpp"], ["sm_timing/src/Timer.cpp"], libs=["boost_thread", "boost_system", "boost_date_time"], sched=True)
    N = lambda t, i, h=False: dict(op="new", tag=t, id=i, h=h)
    S = lambda t, i, d: dict(op="stop", tag=t, id=i, d=d)
    G = lambda o, t, h=False: dict(op=o, tag=t, h=h)
    end = lambda *ts: [G(o, t) for t in ts for o in ("num", "total", "var")] + [dict(op="print", sort="total")]
    scs = [
        dict(pre=[], threads=[[N("a", 1), S("a", 1, 3)], [N("a", 2), S("a", 2, 5)]], final=end("a")),
        dict(pre=[], threads=[[N("a", 1), S("a", 1, 3)], [N("b", 2), S("b", 2, 5)], [N("c", 3), S("c", 3, 1)]], final=end("a", "b", "c")),
        dict(pre=[dict(op="handle", tag="a"), N("a", 1), S("a", 1, 4)], threads=[[N("b", 2), N("c", 3), N("d", 4), S("b", 2, 1), S("c", 3, 1), S("d", 4, 1)], [G("mean", "a", True), G("num", "a", True)], [dict(op="getTag", tag="a")]], final=end("a")),
        dict(pre=[N("a", 1), S("a", 1, 4)], threads=[[N("a", 2), S("a", 2, 6)], [G("mean", "a"), G("var", "a")]], final=end("a")),
        dict(pre=[N("a", 1), S("a", 1, 4)], threads=[[N("a", 2), S("a", 2, 6), G("reset", "a")], [dict(op="print", sort="mean"), dict(op="print", sort="none")]], final=end("a")),
        dict(pre=[dict(op="handle", tag="a")], threads=[[N("b", 1), S("b", 1, 2)], [N("a", 2, True), S("a", 2, 7), N("a", 3, True), S("a", 3, 9)]], final=end("a", "b")),
    ] + [timing_scenario(ctx.rng) for _ in range(ctx.pick(20, 120))]
    reqs = []
    for i, sc in enumerate(scs):
        seed = ctx.seed * 7919 + i
        reqs.append(dict(sc=sc, mode="random", runs=ctx.pick(200, 2000), seed=seed))
        reqs.append(dict(sc=sc, mode="pct", runs=ctx.pick(200, 2000), seed=seed))
        reqs.append(dict(sc=sc, mode="dfs", runs=ctx.pick(200, 2500), seed=seed, bound=2))
    hists, seen = [], set()
    for k, how, ev in ctx.run_schedules(exe, reqs):
        h = [dict(k="init", n=len(reqs[k]["sc"]["threads"]))] + ev
        key = vf.json.dumps(h, sort_keys=True)
        if key not in seen:
            seen.add(key)
            hists.append(h)
    hists.sort(key=lambda h: 0 if h[-1].get("k") == "abort" else 1)
    ctx.cov["distinct_traces"] = len(hists)
    cap = ctx.pick(8000, 60000)
    if len(hists) > cap:
        hists = [h for h in hists if h[-1].get("k") == "abort"][:50] + ctx.rng.sample(hists, cap)
    ctx.validate_tree("TimingConcTrace", hists, "threads using the registry")

def T04(ctx):
    ctx.exe = build_timing(ctx)
    ctx.model_check("TimingMC", TM_CFG % ("Inv OneSamplePerStop", ctx.pick(3, 4), "mc"), "timer life cycles, ticks, resets")
    tv(ctx, ctx.generate("TimingMC", TM_CFG % ("Inv", ctx.pick(4, 5), "gen"), "all call sequences on two timers"), "exhaustive call sequences")
    tv(ctx, [tm_random(ctx.rng, 40, False) for _ in range(ctx.pick(400, 5000))], "random timer histories")

def limbs(v):
    a = abs(v)
    return dict(neg=v < 0, q=[a % 10**6, a // 10**6 % 10**6, a // 10**12 % 10**6, a // 10**18])

def T05(ctx):
    exe = ctx.build("nsec", ["nsec.cpp"], ["sm_timing/src/NsecTimeUtilities.cpp"])
    rng = ctx.rng
    cfg = "INIT Init\nNEXT Next\nINVARIANT Arith\nCHECK_DEADLOCK FALSE\nCONSTANTS Limbs = {%s}\n" % ", ".join(
        str(x) for x in ctx.pick([0, 1, 999999, 775807, 775808, 36854, 223372], [0, 1, 2, 511, 512, 999999, 775807, 775808, 36854, 36853, 223372, 223371, 500000]))
    r = ctx.generate("NsecTimeMC", cfg, "boundary times")
    # leave out times that do not fit after the round trip through double (undefined conversion)
    def fits(t):
        v = sum(x * 10**(6 * i) for i, x in enumerate(t["q"]))
        return v < 2**63 - 2048
    hs = [h if fits(h[0]["t"]) else h[:2] for h in r]
    M = 2**63 - 4096
    def rt():
        x = rng.random()
        v = rng.randrange(M) if x < .3 else rng.randrange(10**rng.randrange(1, 19)) if x < .7 else 2**rng.randrange(63) + rng.randrange(-2, 3) if x < .9 else 1700000000 * 10**9 + rng.randrange(10**12)
        v = max(-M, min(M, v))
        return -v if rng.random() < .3 else v
    for _ in range(ctx.pick(400, 5000)):
        h = [dict(op="invalid")]
        for _ in range(25):
            op = rng.choice(["valid", "chrono", "sec", "whole", "part", "toSec", "mono", "mono", "now"])
            e = dict(op=op)
            t = rt()
            if op in ("valid", "chrono", "sec"):
                e["t"] = limbs(t)
            elif op == "now":
                e["t"] = limbs(abs(t))
            elif op == "mono":
                e["t"] = limbs(t); e["u"] = limbs(max(-M, min(M, rng.choice([t, t + 1, t - 1, t + 500, t - 500, -t, rt()]))))
            elif op == "whole":
                e["s"] = rng.choice([rng.randrange(2**31), rng.randrange(1000)]); e["neg"] = rng.random() < .4
            elif op == "part":
                e["s"] = rng.randrange(2**22); e["kk"] = rng.randrange(512); e["neg"] = rng.random() < .4
            else:
                e["s"] = rng.randrange(-2**30, 2**31 - 1)
            h.append(e)
        hs.append(h)
    ctx.validate("NsecTimeTrace", ctx.run_histories(exe, hs), "boundary and random times", cfg="INIT TInit\nNEXT TNext\nINVARIANT TAccepted\nCHECK_DEADLOCK FALSE\n")
    ctx.assumptions.append("times whose conversion to seconds and back overflows int64 (within 4096 ns of its ends) are only given to isValid and chrono conversion")

# ----------------------------------------------------------------------- T06
def T06(ctx):
    from common import MC, STATELESS
    try:
        exe = ctx.build("ptimes", ["ptimes.cpp", "ptimes2.cpp"], [])
    except vf.ToolError as x:
        if "multiple definition of `sm::ptime" in str(x):
            raise vf.Violation("the header cannot be used in two source files: " + str(x)[:500], dict(error=str(x)))
        raise
    hs = [h[0] for h in ctx.generate("PTimeMC", MC % (ctx.pick(0, 1), "all"), "calendar")]
    for _ in range(ctx.pick(3000, 50000)):
        y, m = ctx.rng.choice([ctx.rng.randrange(1400, 10000), ctx.rng.randrange(1960, 2045)]), ctx.rng.randrange(1, 13)
        hs.append(dict(op="conv", y=y, m=m, d=ctx.rng.randrange(1, 29), s=ctx.rng.choice([0, 1, 86399, ctx.rng.randrange(86400)]), us=ctx.rng.choice([0, 1, 999999, ctx.rng.randrange(10 ** 6)])))
    for e in hs:
        e["alt"] = ctx.rng.random() < 0.5
    ctx.validate("PTimeTrace", ctx.run_histories(exe, [hs[i:i + 50] for i in range(0, len(hs), 50)]), "dates", cfg=STATELESS)
