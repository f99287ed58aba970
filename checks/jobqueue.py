"""sm::JobQueue: J01 (exactly once, FIFO), J02 (barrier), J03 (stop), J04 (futures)."""
import vf

def build(ctx):
    return ctx.build("jobqueue", ["jobqueue.cpp"], ["sm_boost/src/JobQueue.cpp"], libs=["boost_thread", "boost_system"], sched=True)

MC = "SPECIFICATION Spec\nINVARIANT %s\nPROPERTY %s\nCHECK_DEADLOCK FALSE\nCONSTANTS Progs = {%s}\n"

def O(op, j=None):
    return dict(op=op) if j is None else dict(op=op, j=j)

def jobs_of(sc):
    """job table for the specification: kind by the operation that schedules it"""
    t = {}
    def scan(ops):
        for o in ops:
            if o["op"] in ("work", "fut", "futs", "futv"):
                t[o["j"]] = o["op"]
    for th in sc["threads"]:
        scan(th)
    scan(sc["final"])
    for j in sc["jobs"].values():
        scan(j.get("sub", []))
    return [dict(j=j, kind=k, throws=bool(sc["jobs"][str(j)].get("throws"))) for j, k in sorted(t.items())]

def explore(ctx, exe, scs, what, random=0, pct=0, dfs=0, bound=2):
    reqs = []
    for i, sc in enumerate(scs):
        seed = ctx.seed * 7919 + i
        if random:
            reqs.append(dict(sc=sc, mode="random", runs=random, seed=seed, spurious=i % 3 == 2))
        if pct:
            reqs.append(dict(sc=sc, mode="pct", runs=pct, seed=seed))
        if dfs:
            reqs.append(dict(sc=sc, mode="dfs", runs=dfs, seed=seed, bound=bound, tracked=True))
    hists, seen = [], set()
    for k, how, ev in ctx.run_schedules(exe, reqs):
        sc = reqs[k]["sc"]
        h = [dict(k="init", jobs=jobs_of(sc), n=sc["n"])]
        for e in ev:
            e = dict(e)
            if e["k"] == "call" and e["op"] == "start":
                e["j"] = sc["n"]
            h.append(e)
        key = vf.json.dumps(h, sort_keys=True)
        if key not in seen:
            seen.add(key)
            hists.append((how, h))
    # cheap violations first: aborted runs
    hists.sort(key=lambda x: (0 if x[1][-1].get("k") == "abort" else 1))
    cap = ctx.pick(15000, 120000)
    if len(hists) > cap:
        ab = [x for x in hists if x[1][-1].get("k") == "abort"][:50]
        hists = ab + ctx.rng.sample(hists, cap)
    ctx.cov["distinct_traces"] = ctx.cov.get("distinct_traces", 0) + len(seen)
    ctx.validate_tree("JobQueueTrace", [h for _, h in hists], what)

def programs(rng, kinds, nt, nj, n):
    """random client programs that terminate by specification"""
    jobs, th = {}, []
    js = list(range(1, nj + 1))
    rng.shuffle(js)
    parts = [js[i::nt] for i in range(nt)]
    later = []
    for p in parts:
        ops = []
        for j in p:
            k = rng.choice(kinds)
            jobs[str(j)] = dict(throws=True) if k != "work" and rng.random() < 0.35 else {}
            ops.append(O(k, j))
            if k != "work":
                x = rng.random()
                if x < 0.4:
                    ops.append(O("get", j))
                elif x < 0.6:
                    ops += [O("ready", j), O("get", j)]
                else:
                    later.append(j)
            if rng.random() < 0.25:
                ops.append(O(rng.choice(["empty", "wait"])))
        if rng.random() < 0.5:
            ops.append(O("wait"))
        th.append(ops)
    fin = []
    if rng.random() < 0.6:
        fin.append(O("wait"))
    for j in later:
        fin.append(O("get", j))
    fin += rng.choice([[O("join"), O("destroy")], [O("destroy")], [O("stop"), O("destroy")]])
    return dict(n=n, threads=th, final=fin, jobs=jobs)

def J01(ctx):
    exe = build(ctx)
    ctx.model_check("JobQueueMC", MC % ("Fifo Once AtMostN", "Terminates", "1, 2, 6"), "client programs, FIFO, exactly once, liveness")
    J = lambda **k: {str(i): v for i, v in k.items()}
    scs = [
        # jobs that need other workers to run at the same time
        dict(n=2, threads=[[O("work", 1), O("work", 2), O("wait")]], final=[O("destroy")], jobs={"1": {"after": 2}, "2": {}}),
        dict(n=3, threads=[[O("work", 1), O("work", 2)], [O("work", 3)]], final=[O("wait"), O("join"), O("destroy")], jobs={"1": {}, "2": {}, "3": {}}),
        dict(n=3, threads=[[O("work", 1), O("work", 2), O("work", 3), O("wait")]], final=[O("destroy")], jobs={"1": {"after": 2}, "2": {"after": 3}, "3": {}}),
        # jobs that schedule further jobs
        dict(n=2, threads=[[O("work", 1), O("wait")], [O("work", 2)]], final=[O("wait"), O("destroy")], jobs={"1": {"sub": [O("work", 3), O("work", 4)]}, "2": {}, "3": {}, "4": {}}),
        dict(n=1, threads=[[O("work", 1), O("work", 2), O("work", 3)], [O("work", 4), O("empty")]], final=[O("wait"), O("destroy")], jobs={str(i): {} for i in range(1, 5)}),
    ]
    for _ in range(ctx.pick(6, 40)):
        scs.append(programs(ctx.rng, ["work", "work", "fut"], ctx.rng.choice([1, 2, 3]), ctx.rng.choice([2, 3, 4, 5]), ctx.rng.choice([1, 2, 2, 3])))
    explore(ctx, exe, scs, "client programs", random=ctx.pick(800, 6000), pct=ctx.pick(800, 6000), dfs=ctx.pick(800, 10000))

def J02(ctx):
    exe = build(ctx)
    ctx.model_check("JobQueueMC", MC % ("Barrier EmptyExact", "Terminates", "1, 2, 6"), "barrier and liveness of wait")
    scs = [
        dict(n=2, threads=[[O("work", 1), O("wait"), O("work", 2), O("wait")], [O("work", 3), O("wait")]], final=[O("destroy")], jobs={str(i): {} for i in range(1, 4)}),
        dict(n=1, threads=[[O("work", 1), O("wait")], [O("wait")], [O("wait")]], final=[O("destroy")], jobs={"1": {}}),
        dict(n=2, threads=[[O("work", 1), O("work", 2), O("wait"), O("empty")], [O("empty"), O("wait"), O("empty")]], final=[O("destroy")], jobs={"1": {}, "2": {}}),
        dict(n=3, threads=[[O("work", 1), O("wait")]], final=[O("wait"), O("empty"), O("destroy")], jobs={"1": {"sub": [O("work", 2), O("empty"), O("work", 3)]}, "2": {}, "3": {}}),
        dict(n=2, threads=[[O("futv", 1), O("wait"), O("ready", 1)], [O("fut", 2), O("wait"), O("ready", 2), O("get", 2)]], final=[O("destroy")], jobs={"1": {"throws": True}, "2": {}}),
        dict(n=1, threads=[[O("wait"), O("work", 1), O("wait")], [O("wait"), O("empty")]], final=[O("wait"), O("destroy")], jobs={"1": {}}),
    ]
    for _ in range(ctx.pick(5, 40)):
        sc = programs(ctx.rng, ["work", "work", "futv"], ctx.rng.choice([1, 2, 3]), ctx.rng.choice([1, 2, 3, 4]), ctx.rng.choice([1, 2, 2, 3]))
        for t in sc["threads"]:
            for i in range(len(t), 0, -1):
                if ctx.rng.random() < 0.3:
                    t.insert(i, O(ctx.rng.choice(["wait", "wait", "empty"])))
        scs.append(sc)
    explore(ctx, exe, scs, "client programs", random=ctx.pick(800, 6000), pct=ctx.pick(800, 6000), dfs=ctx.pick(800, 10000))

def J03(ctx):
    exe = build(ctx)
    ctx.model_check("JobQueueMC", MC % ("NothingAfterJoin Once AtMostN", "Terminates StoppedForGood", "3, 4, 5"), "stop, join, destruction")
    W = lambda *a: [O("work", i) for i in a]
    JJ = lambda n: {str(i): {} for i in range(1, n + 1)}
    scs = [
        dict(n=1, threads=[], final=[O("join"), O("destroy")], jobs={}),
        dict(n=2, threads=[], final=[O("destroy")], jobs={}),
        dict(n=3, threads=[], final=[O("stop"), O("destroy")], jobs={}),
        dict(n=0, threads=[], final=[O("join"), O("destroy")], jobs={}),
        dict(n=0, threads=[[O("work", 1)]], final=[O("stop"), O("empty"), O("destroy")], jobs=JJ(1)),
        dict(n=2, threads=[W(1, 2)], final=[O("destroy")], jobs=JJ(2)),
        dict(n=1, threads=[W(1, 2, 3), [O("join")]], final=[O("empty"), O("destroy")], jobs=JJ(3)),
        dict(n=2, threads=[W(1, 2), [O("join")], [O("join")]], final=[O("destroy")], jobs=JJ(2)),
        dict(n=2, threads=[W(1), [O("stop")], W(2)], final=[O("join"), O("destroy")], jobs=JJ(2)),
        dict(n=1, threads=[[O("work", 1)]], final=[O("destroy")], jobs={"1": {"sub": [O("stop")]}}),
        dict(n=2, threads=[[O("fut", 1), O("fut", 2)]], final=[O("destroy"), O("get", 1), O("get", 2)], jobs={"1": {"throws": True}, "2": {}}),
        dict(n=2, threads=[[O("work", 1), O("wait")]], final=[O("join"), O("join"), O("destroy")], jobs=JJ(1)),
    ]
    explore(ctx, exe, scs, "stop programs", random=ctx.pick(1000, 8000), pct=ctx.pick(1000, 8000), dfs=ctx.pick(1500, 15000))

def J04(ctx):
    exe = build(ctx)
    ctx.model_check("JobQueueMC", MC % ("GetAfterEnd", "Terminates", "1, 2, 6"), "futures")
    scs = [
        dict(n=2, threads=[[O("fut", 1), O("futs", 2), O("get", 1), O("get", 2)], [O("futv", 3), O("ready", 3), O("get", 3)]], final=[O("destroy")], jobs={"1": {"throws": True}, "2": {}, "3": {}}),
        dict(n=1, threads=[[O("futs", 1), O("ready", 1), O("get", 1)], [O("futv", 2), O("get", 2)], [O("fut", 3), O("get", 3)]], final=[O("destroy")], jobs={"1": {}, "2": {"throws": True}, "3": {"throws": True}}),
        dict(n=2, threads=[[O("fut", 1), O("fut", 2), O("fut", 3), O("ready", 2)]], final=[O("wait"), O("ready", 1), O("get", 3), O("get", 2), O("get", 1), O("destroy")], jobs={"1": {}, "2": {"throws": True}, "3": {}}),
        # a job waiting for the result of another job
        dict(n=2, threads=[[O("fut", 1), O("fut", 2), O("get", 2)]], final=[O("wait"), O("destroy")], jobs={"1": {}, "2": {"sub": [O("get", 1)]}}),
    ]
    for _ in range(ctx.pick(8, 50)):
        scs.append(programs(ctx.rng, ["fut", "futs", "futv", "work"], ctx.rng.choice([1, 2, 3]), ctx.rng.choice([2, 3, 4, 5]), ctx.rng.choice([1, 2, 3])))
    explore(ctx, exe, scs, "future programs", random=ctx.pick(800, 6000), pct=ctx.pick(800, 6000), dfs=ctx.pick(500, 8000))
