"""sm_logging: L01 (enabled statements), L02 (gating), L03 (concurrency), L04 (formatter)."""
import vf

SRCS = ["sm_logging/src/%s.cpp" % x for x in ("Logger", "StdOutLogger", "LoggingEvent", "LoggingGlobals", "Formatter", "Tokens", "Levels")]
MC = "INIT Init\nNEXT Next\nINVARIANT OnceOnce ThrottleGap TypeOK Names\nCONSTRAINT Bound\nCHECK_DEADLOCK FALSE\nCONSTANTS Depth = %d\nMode = \"%s\"\n"

def build(ctx):
    dr = ["logging.cpp"] + ["logsites%d.cpp" % i for i in range(1, 6)]
    return ctx.build("logging", dr, SRCS, libs=["boost_thread", "boost_system", "boost_regex"], per_src_defs={d: ["-O0"] for d in dr})

KINDS = ["plain", "cond", "once", "throttle"]
SEC = 64
U = 15625          # 1/64 second

def site(rng, kinds=None):
    """a log statement: all levels, variants and instances of the macros"""
    while True:
        if rng.random() < 0.25:
            v = rng.choice([0, 1, 2, 3, 4, 5, 8, 9, 12, 13])
            i = rng.randrange(2)
            s = dict(gen=True, var=v, inst=i, id=5000 + i * 16 + v, st=["", "sm.gen"][i], kind="plain" if v < 4 else KINDS[v // 4])
        else:
            lv, v, i = rng.randrange(11), rng.randrange(16), rng.randrange(2)
            s = dict(gen=False, var=v, inst=i, lv=lv, id=i * 1000 + lv * 16 + v, st=["sm." + ["a", "b.c"][i] if v & 2 else "sm"][0], kind=KINDS[v // 4])
        if kinds is None or s["kind"] in kinds:
            return s

def execute(rng, s, now, n, nest=0.1):
    p = rng.choice([0, 0, 0, 1, 7])
    if rng.random() < 0.04:
        p = rng.choice([100, 4080, 4085, 4086, 4087, 4088, 4089, 4090, 4091, 4092, 4093, 4094, 4095, 4096, 4097, 5000, 9000])
    e = dict(s, op="exec", cond=rng.random() < 0.6, rate=rng.choice([0, 1, 32, 64, 64, 100, 640]) * U, now=now * U,
             m=rng.choice(["", "msg", "a b", "%s %d %%", "\t|", "${message}"]), p=p, n=n, nest=rng.random() < nest)
    if s["gen"]:
        e["lv"] = rng.randrange(11)
    return e

def config(rng):
    x = rng.random()
    if x < 0.4:
        return dict(op="level", lv=rng.choice([0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 0, 5, 7]))
    if x < 0.8:
        return dict(op=rng.choice(["enable", "enable", "disable"]), s=rng.choice(["a", "b.c", "sm.a", "sm.b.c", "sm", "gen", "sm.gen", "", "smx", "sm.sm", "s"]))
    if x < 0.92:
        return dict(op="isOn", s=rng.choice(["a", "sm.a", "sm", "gen", "b.c", "", "smx", "sm."]))
    n = rng.choice(["all", "finest", "verbose", "finer", "trace", "fine", "debug", "info", "warn", "error", "fatal", "none", "", "warning", "inf", "count"])
    return dict(op="fromString", s="".join(c.upper() if rng.random() < 0.4 else c for c in n))

def history(rng, n, kinds, pconf, loggers):
    sites = [site(rng, kinds) for _ in range(rng.choice([2, 4, 8, 30]))]
    h, now, g = [], 64000, 1
    for i in range(n):
        x = rng.random()
        if x < pconf:
            h.append(config(rng))
        elif loggers and x < pconf + 0.06:
            g += 1
            m = rng.choice(["plain", "throw", "throwint", "recurse", "reconf", "swap", "null"])
            h.append(dict(op="logger", g=g, mode=m))
        elif loggers and x < pconf + 0.065:
            h.append(dict(op="shutdown"))
        else:
            now += rng.choice([0, 0, 1, 16, 31, 32, 33, 63, 64, 65, 640])
            h.append(execute(rng, rng.choice(sites), now, i))
    return h

def every_site(rng, kinds):
    """every macro of every level: below, at and above the level, with streams off and on"""
    out = []
    for lv in range(11):
        h, now = [], 64000
        for inst in range(2):
            for v in range(16):
                if KINDS[v // 4] not in kinds:
                    continue
                s = dict(gen=False, var=v, inst=inst, lv=lv, id=inst * 1000 + lv * 16 + v, st="sm." + ["a", "b.c"][inst] if v & 2 else "sm", kind=KINDS[v // 4])
                steps = [dict(op="level", lv=lv + 1), None, dict(op="level", lv=lv), None, dict(op="enable", s=["a", "b.c"][inst]), None, None,
                         dict(op="disable", s="sm"), None, dict(op="enable", s="sm"), dict(op="disable", s=["sm.a", "b.c"][inst]), None]
                for st in steps:
                    if st is None:
                        now += rng.choice([0, 10, 64])
                        e = execute(rng, s, now, len(h), nest=0.03)
                        if rng.random() < 0.7:
                            e["cond"] = True
                        h.append(e)
                    else:
                        h.append(st)
        out.append(h)
    return out

def L01(ctx):
    exe = build(ctx)
    ctx.model_check("LoggingMC", MC % (4, "mc"), "level, streams, hidden state of statements")
    hs = ctx.generate("LoggingMC", MC % (ctx.pick(4, 5), "gen"), "all call sequences")
    ctx.validate("LoggingTrace", ctx.run_histories(exe, hs), "all call sequences")
    hs = every_site(ctx.rng, ["plain", "cond"])
    hs += [history(ctx.rng, 60, ["plain", "cond"], 0.4, False) for _ in range(ctx.pick(600, 8000))]
    ctx.validate("LoggingTrace", ctx.run_histories(exe, hs), "every macro and random histories")

def L02(ctx):
    exe = build(ctx)
    ctx.model_check("LoggingMC", MC % (8, "mc"), "level, streams, hidden state of statements")
    hs = every_site(ctx.rng, KINDS)
    hs += [history(ctx.rng, 60, None, 0.12, False) for _ in range(ctx.pick(700, 8000))]
    hs += [history(ctx.rng, 40, ["once", "throttle"], 0.2, True) for _ in range(ctx.pick(200, 3000))]
    ctx.validate("LoggingTrace", ctx.run_histories(exe, hs), "every macro and random histories")

# ------------------------------------------------------------------------ L03

def conc_scenarios(rng, n):
    out = []
    for k in range(n):
        nt = rng.choice([2, 2, 3, 3, 4])
        modes, num, g = {"1": "plain"}, 0, 1
        x = rng.random()
        if x < 0.45:
            modes["1"] = rng.choice(["throw", "throwint", "recurse", "reconf"])
        th = []
        sites = rng.sample(range(10), rng.choice([2, 3, 5]))
        style = rng.choice(["streams", "level", "loggers", "mix", "print"])
        for _ in range(nt):
            ops = []
            for _ in range(rng.choice([1, 2, 3, 4])):
                y = rng.random()
                if style == "print" or y < 0.45:
                    num += 1
                    ops.append(dict(op="exec", site=rng.choice(sites), n=num))
                else:
                    z = {"streams": 0, "level": 1, "loggers": 2, "mix": rng.randrange(3), "print": 0}[style]
                    if z == 0:
                        ops.append(dict(op=rng.choice(["enable", "disable", "enable", "disable", "isOn"]), s=rng.choice(["a", "a", "sm.a", "sm", "b"])))
                    elif z == 1:
                        ops.append(rng.choice([dict(op="level", lv=rng.choice([0, 6, 7, 8, 11])), dict(op="level", lv=rng.choice([6, 8])), dict(op="getLevel")]))
                    else:
                        w = rng.random()
                        if w < 0.7:
                            g += 1
                            modes[str(g)] = rng.choice(["plain", "plain", "throw", "throwint", "recurse", "swap", "reconf"])
                            ops.append(dict(op="logger", g=g))
                        else:
                            ops.append(rng.choice([dict(op="logger", g=0), dict(op="getLogger")]))
            th.append(ops)
        if rng.random() < 0.1:
            th[-1].append(dict(op="shutdown"))
        fin = []
        for s in rng.sample(range(10), 4):
            num += 1
            fin.append(dict(op="exec", site=s, n=num))
        fin += [dict(op="getLevel"), dict(op="isOn", s="a")]
        pre = []
        if rng.random() < 0.5:
            for s in sites:
                num += 1
                pre.append(dict(op="exec", site=s, n=num))
        out.append(dict(modes=modes, pre=pre, threads=th, final=fin))
    return out

def E(site, n):
    return dict(op="exec", site=site, n=n)

CONC = [
    # two threads make the same change and then rely on it
    dict(modes={"1": "plain"}, pre=[E(2, 1), E(3, 2)], threads=[[dict(op="level", lv=6), E(2, 3)], [dict(op="level", lv=6), E(3, 4)]], final=[E(2, 5)]),
    dict(modes={"1": "plain"}, pre=[E(4, 1), E(5, 2)], threads=[[dict(op="enable", s="a"), E(4, 3), dict(op="disable", s="a"), E(4, 4)], [dict(op="enable", s="a"), E(5, 5)], [dict(op="disable", s="a"), E(5, 6)]], final=[E(4, 7)]),
    # the same statement executed for the first time by two threads while its stream is switched
    dict(pre=[], modes={"1": "plain"}, threads=[[E(4, 1), E(4, 2)], [dict(op="enable", s="a"), E(4, 3)], [dict(op="disable", s="sm"), E(0, 4)]], final=[E(4, 5), E(0, 6)]),
    dict(pre=[], modes={"1": "plain"}, threads=[[dict(op="level", lv=6), E(2, 1)], [dict(op="level", lv=6), E(3, 2)], [E(2, 3), E(3, 4)]], final=[E(2, 5), dict(op="getLevel")]),
    dict(pre=[], modes={"1": "recurse"}, threads=[[E(0, 1), E(1, 2)], [E(0, 3), E(1, 4)], [E(7, 5)]], final=[E(0, 6)]),
    dict(pre=[], modes={"1": "throwint", "2": "throw"}, threads=[[E(0, 1), E(0, 2)], [E(1, 3), dict(op="logger", g=2), E(1, 4)]], final=[E(0, 5), E(7, 6)]),
    dict(pre=[], modes={"1": "plain", "2": "plain", "3": "swap"}, threads=[[E(8, 1), E(0, 2)], [dict(op="logger", g=2), dict(op="logger", g=3)], [E(1, 3), dict(op="getLogger")]], final=[E(0, 4)]),
    dict(pre=[], modes={"1": "reconf"}, threads=[[E(7, 1), E(2, 2)], [dict(op="enable", s="a"), dict(op="disable", s="a")], [E(5, 3)]], final=[E(2, 4)]),
    dict(pre=[], modes={"1": "plain"}, threads=[[E(0, 1), E(0, 2)], [dict(op="shutdown"), E(1, 3)]], final=[E(7, 4)]),
]

IMPL = "SPECIFICATION Spec\nINVARIANT OneInLog CacheExact NothingLost\n%sCONSTANTS NT = %d\nK = %d\nLockOrder = %s\nInLog = %s\n"

def impl(ctx):
    """the locking design: deadlock free as it is, not with the lock order of the original code"""
    live = "PROPERTY Terminates\n"
    ctx.model_check("LoggingImpl", IMPL % (live, 2, 2, "TRUE", "TRUE"), "locks, logger that reconfigures")
    ctx.model_check("LoggingImpl", IMPL % ("", 3, ctx.pick(1, 2), "TRUE", "TRUE"), "locks, three threads")
    r = ctx.tlc("LoggingImpl", IMPL % ("", 2, 2, "FALSE", "FALSE"))
    if "Deadlock reached" not in r["out"]:
        raise vf.ToolError("the model of the original lock order does not deadlock: " + vf.tail(r["out"]))

def L03(ctx):
    exe = ctx.build("logconc", ["logconc.cpp"], SRCS, libs=["boost_thread", "boost_system", "boost_regex"], sched=True)
    impl(ctx)
    scs = CONC + conc_scenarios(ctx.rng, ctx.pick(25, 150))
    reqs = []
    for i, sc in enumerate(scs):
        seed = ctx.seed * 7919 + i
        k = 3 if i < len(CONC) else 1
        reqs.append(dict(sc=sc, mode="random", runs=k * ctx.pick(200, 2000), seed=seed))
        reqs.append(dict(sc=sc, mode="pct", runs=k * ctx.pick(200, 2000), seed=seed))
        reqs.append(dict(sc=sc, mode="dfs", runs=k * ctx.pick(200, 2500), seed=seed, bound=2, tracked=True))
    hists, seen = [], set()
    for k, how, ev in ctx.run_schedules(exe, reqs):
        sc = reqs[k]["sc"]
        h = [dict(k="init", modes=[dict(g=int(g), mode=m) for g, m in sorted(sc["modes"].items())])] + ev
        key = vf.json.dumps(h, sort_keys=True)
        if key not in seen:
            seen.add(key)
            hists.append(h)
    hists.sort(key=lambda h: 0 if h[-1].get("k") == "abort" else 1)
    ctx.cov["distinct_traces"] = len(hists)
    cap = ctx.pick(12000, 100000)
    if len(hists) > cap:
        hists = [h for h in hists if h[-1].get("k") == "abort"][:50] + ctx.rng.sample(hists, cap)
    ctx.validate_tree("LoggingConcTrace", hists, "threads of statements and configuration calls")

# ------------------------------------------------------------------------ L04

PIECES = ["${severity}", "${message}", "${time}", "${thread}", "${file}", "${line}", "${function}", "${streamname}", "${x}", "${Message}",
          "${MESSAGE}", "${messages}", "${a b}", "${line2}", "${", "}", "$", "{", "${}", "$${line}", "${${x}}", "[", "]", ": ", "text", "%s", "\\", "\n", "\t", "|", "${a|b}", "(.*)", "${yy}"]
MSGS = ["", "hello", "${severity}", "a ${x} b", "%d%s", "$", "two\nlines", "${", "  ", "\x1b[0m"]
FM = "INIT Init\nNEXT Next\nINVARIANT Literal Neutral\nCONSTRAINT Bound\nCHECK_DEADLOCK FALSE\nCONSTANTS Depth = %d\nMode = \"%s\"\n"

def ev(rng):
    return dict(lv=rng.randrange(11), m=rng.choice(MSGS), t=rng.choice(["12.5", "0.000000", "${time}", ""]), file=rng.choice(["f.cpp", "/a/b.hpp", ""]),
                line=rng.choice([0, 1, 42, -1, 2147483647]), fn=rng.choice(["void f()", "g", ""]), st=rng.choice(["sm", "sm.a", "${x}", ""]))

def fmt_history(rng, n):
    f = lambda: "".join(rng.choice(PIECES) for _ in range(rng.randrange(7)))
    h = [dict(op="new", env=rng.random() < 0.5, f=f())]
    for _ in range(n):
        x = rng.random()
        if x < 0.25:
            h.append(dict(op="init", f=f()))
        elif x < 0.33:
            h.append(dict(op="color", on=rng.random() < 0.5))
        elif x < 0.45:
            h.append(dict(op="extra", n=rng.choice(["x", "yy", "message", "Message", "a b"]), v=rng.choice(["", "X", "${x}", "${message}", "long value"])))
        elif x < 0.48:
            h.append(dict(op="unextra", n=rng.choice(["x", "yy", "message"])))
        elif x < 0.53:
            h.append(dict(op="new", env=rng.random() < 0.5, f=f()))
        else:
            h.append(dict(op=rng.choice(["print", "print", "print", "logger", "thread"]), e=ev(rng)))
    return h

def L04(ctx):
    exe = ctx.build("logfmt", ["logfmt.cpp"], SRCS, libs=["boost_thread", "boost_system", "boost_regex"])
    ctx.model_check("FormatterMC", FM % (2, "mc"), "expansion of all short formats")
    hs = ctx.generate("FormatterMC", FM % (ctx.pick(3, 4), "gen"), "all call sequences")
    E0 = dict(lv=7, m="M", t="1.5", file="f", line=3, fn="fn", st="s")
    # every word over the characters that matter to the token syntax
    words = [""]
    allw = [""]
    for _ in range(ctx.pick(5, 7)):
        words = [w + c for w in words for c in "${}x"]
        allw += words
    part = [dict(op="init", f=w) if i == 0 else dict(op="print", e=E0) for w in allw for i in range(2)]
    hs += [[dict(op="new", env=False, f=""), dict(op="color", on=False), dict(op="extra", n="x", v="V")] + part[i:i + 60] for i in range(0, len(part), 60)]
    # every pair of pieces, every level
    pairs = [a + b for a in PIECES for b in PIECES]
    part = []
    for w in pairs:
        part += [dict(op="init", f=w), dict(op="print", e=dict(E0, lv=len(part) // 2 % 11, m=ctx.rng.choice(MSGS)))]
    hs += [[dict(op="new", env=False, f=""), dict(op="extra", n="x", v="V")] + part[i:i + 60] for i in range(0, len(part), 60)]
    hs += [fmt_history(ctx.rng, 40) for _ in range(ctx.pick(500, 8000))]
    ctx.validate("FormatterTrace", ctx.run_histories(exe, hs), "formats, events, extra tokens")

# assertion macros of sm/logging/assert.h
def L05(ctx):
    exe = ctx.build("logasserts", ["logasserts.cpp", "logasserts_nd.cpp"], SRCS, libs=["boost_thread", "boost_system", "boost_regex"])
    cfg = "INIT Init\nNEXT Next\nINVARIANT Laws\nCONSTRAINT Bound\nCHECK_DEADLOCK FALSE\nCONSTANTS Depth = %d\n" % ctx.pick(2, 4)
    hs = ctx.generate("LogAssertsMC", cfg, "every macro, condition and small operands")
    calls = [h[0] for h in hs]
    ctx.rng.shuffle(calls)
    hs = []
    for i in range(0, len(calls), 50):
        hs.append([dict(op="level", l=ctx.rng.randrange(11))] + calls[i:i + 50])
    for _ in range(ctx.pick(200, 4000)):
        h = []
        for _ in range(40):
            if ctx.rng.random() < 0.2:
                h.append(dict(op="level", l=ctx.rng.randrange(11)))
            big = ctx.rng.random() < 0.3
            v = lambda: ctx.rng.randrange(-2 ** 31 + 1, 2 ** 31 - 1) if big else ctx.rng.randrange(-3, 4)
            x = v()
            c = ctx.rng.randrange(10)
            h.append(dict(op=ctx.rng.choice(["ASSERT", "MSG", "CMD"]), c=c, x=x, y=ctx.rng.choice([x, v()]), ent=c != 9 or ctx.rng.random() < 0.6, nd=ctx.rng.random() < 0.2))
        hs.append(h)
    ctx.validate("LogAssertsTrace", ctx.run_histories(exe, hs), "all macros under all levels")
