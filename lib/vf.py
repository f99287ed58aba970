"""Framework shared by all checks: building drivers from /repo's working tree,
running histories, model checking and trace validation with TLC, evidence."""
import glob, json, os, random, re, shutil, subprocess, sys, tempfile, threading, time, signal
from concurrent.futures import ThreadPoolExecutor

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")
SPEC = os.path.join(VERIF, "spec")
DRV = os.path.join(VERIF, "drivers")
TLA_JAR = "/opt/veriftools/tla/tla2tools.jar"
NCPU = os.cpu_count() or 4

class ToolError(Exception):
    pass

class Violation(Exception):
    def __init__(self, msg, data=None):
        Exception.__init__(self, msg)
        self.data = data

PKG_INC = ["sm_common", "sm_random", "sm_boost", "sm_eigen", "sm_kinematics", "sm_logging", "sm_matrix_archive",
           "sm_property_tree", "sm_timing", "sm_value_store", "sm_deprecation"]

class Ctx:
    def __init__(self, prop, tier, seed):
        self.prop, self.tier, self.seed = prop, tier, seed
        self.t0 = time.time()
        self.rng = random.Random("%s/%d" % (prop, seed))
        self.scratch = tempfile.mkdtemp(prefix="vf_%s_" % prop)
        self.states = 0
        self.transitions = 0
        self.traces = 0
        self.events = 0
        self.samples = []
        self.cov = {}
        self.assumptions = []
        self.known = []
        self.n_tlc = 0

    @property
    def quick(self):
        return self.tier == "quick"

    def pick(self, q, t):
        return q if self.quick else t

    def path(self, *p):
        return os.path.join(self.scratch, *p)

    def log(self, *a):
        print("[%6.1fs] %s" % (time.time() - self.t0, " ".join(str(x) for x in a)), flush=True)

    # ------------------------------------------------------------------ build
    def build(self, name, drivers, repo_srcs=(), defs=(), libs=(), incs=(), opt="-O1", per_src_defs=None, std="-std=c++14",
              sched=False):
        """Compile driver sources and sources of /repo into an executable."""
        out = self.path(name)
        objs, cmds = [], []
        common = ["g++", std, opt, "-g0", "-w", "-fPIC", "-D_GLIBCXX_ASSERTIONS", "-DBOOST_BIND_GLOBAL_PLACEHOLDERS",
                  "-I", DRV]
        for i in incs:
            common += ["-I", i]
        for p in PKG_INC:
            common += ["-I", os.path.join(REPO, p, "include")]
        common += ["-I", "/usr/include/eigen3"] + ["-D" + d for d in defs]
        if sched:
            # the deterministic scheduler: repository code is compiled with the
            # thread sanitizer's instrumentation, whose hooks sched.cpp implements
            drivers = list(drivers) + ["sched.cpp"]
        for n, s in enumerate(list(drivers) + list(repo_srcs)):
            src = s if os.path.isabs(s) else (os.path.join(DRV, s) if n < len(drivers) else os.path.join(REPO, s))
            o = self.path("%s_%d.o" % (name, n))
            extra = []
            if "sm_property_tree" in src:
                extra = ["-include", "boost/bind.hpp"]
            if sched and s != "sched.cpp":
                extra += ["-fsanitize=thread"]
            if per_src_defs and s in per_src_defs:
                extra += per_src_defs[s]
            objs.append(o)
            cmds.append(common + extra + ["-c", src, "-o", o])
        def one(c):
            return subprocess.run(c, capture_output=True, text=True)
        with ThreadPoolExecutor(NCPU) as ex:
            for c, r in zip(cmds, ex.map(one, cmds)):
                if r.returncode:
                    raise ToolError("compilation failed: %s\n%s" % (" ".join(c), r.stderr[:4000]))
        c = ["g++", "-o", out] + objs + ["-rdynamic"] + ["-l" + l for l in libs] + ["-lpthread", "-ldl"]
        r = subprocess.run(c, capture_output=True, text=True)
        if r.returncode:
            # the sources may have been split or moved: take the remaining ones of the same packages as an archive
            first, have = r.stderr, {os.path.join(REPO, s) for s in repo_srcs}
            more = [m for p in sorted({s.split("/")[0] for s in repo_srcs}) for m in sorted(glob.glob(os.path.join(REPO, p, "src", "**", "*.cpp"), recursive=True))
                    if m not in have and not re.search(r"\bmain\s*\(", open(m, errors="replace").read())]
            extra = []
            for n, m in enumerate(more):
                o = self.path("%s_more%d.o" % (name, n))
                if one(common + ["-include", "boost/bind.hpp"] + (["-fsanitize=thread"] if sched else []) + ["-c", m, "-o", o]).returncode == 0:
                    extra.append(o)
            if extra:
                ar = self.path(name + "_more.a")
                subprocess.run(["ar", "rcs", ar] + extra, check=True)
                c = ["g++", "-o", out] + objs + [ar] + ["-rdynamic"] + ["-l" + l for l in libs] + ["-Wl,--as-needed"] + ["-lboost_" + l for l in
                     ("thread", "system", "filesystem", "serialization", "date_time", "regex")] + ["-lpthread", "-ldl"]
                r = subprocess.run(c, capture_output=True, text=True)
            if r.returncode:
                raise ToolError("link failed: %s\n%s" % (" ".join(c), first[:4000]))
        self.log("built", name)
        return out

    # -------------------------------------------------------------- histories
    def run_histories(self, exe, hists, jobs=NCPU, timeout=240, env=None, mem_gb=6, args=()):
        """Execute the histories (lists of event dicts) with the driver; every
        event gets a field "r" with the result the real code gave."""
        if not hists:
            return []
        jobs = max(1, min(jobs, len(hists)))
        chunks = [list(range(i, len(hists), jobs)) for i in range(jobs)]
        out = [None] * len(hists)
        def one(ci):
            idx = chunks[ci]
            start = 0
            while start < len(idx):
                part = idx[start:]
                d = tempfile.mkdtemp(dir=self.scratch)
                f = os.path.join(d, "h.ndjson")
                with open(f, "w") as fh:
                    for i in part:
                        fh.write(json.dumps(hists[i]) + "\n")
                e = dict(os.environ, VF_DIR=d)
                e.update(env or {})
                # run in a scratch directory of its own
                p = subprocess.Popen(["bash", "-c", "ulimit -v %d -c 0; exec \"$@\"" % (mem_gb * 1024 * 1024), "x", exe, f] + list(args),
                                     stdout=subprocess.PIPE, stderr=subprocess.PIPE, cwd=d, env=e, start_new_session=True)
                why = None
                try:
                    so, se = p.communicate(timeout=timeout)
                except subprocess.TimeoutExpired:
                    os.killpg(p.pid, signal.SIGKILL)
                    so, se = p.communicate()
                    why = "hang"
                res, done, finished = [], False, []
                for line in so.decode("latin-1").split("\n"):
                    if line.startswith("H "):
                        res.append([])
                        finished.append(False)
                    elif line.startswith("R ") and res:
                        try:
                            res[-1].append(json.loads(line[2:]))
                        except ValueError:
                            pass
                    elif line == "E" and res:
                        finished[-1] = True
                    elif line.startswith("DONE"):
                        done = True
                if p.returncode in (96, 97):
                    raise ToolError("driver protocol error: " + se.decode("latin-1")[:2000])
                if why is None and not done:
                    why = "crash %s" % p.returncode
                for k, rs in enumerate(res):
                    h = [dict(ev) for ev in hists[part[k]]]
                    last = k == len(res) - 1
                    for ev, r in zip(h, rs):
                        ev["r"] = r
                    if not (finished[k] and len(rs) == len(h)):
                        h = h[:len(rs) + 1] if len(rs) < len(h) else h
                        h[-1]["r"] = {"k": "exc", "t": why or "incomplete"}
                        if se:
                            h[-1]["stderr"] = se.decode("latin-1")[-1500:]
                    elif last and not done and why:
                        # the history itself completed; the crash came at its cleanup
                        h[-1]["r"] = {"k": "exc", "t": why + " at cleanup"}
                    out[part[k]] = h
                if not res and part:
                    raise ToolError("driver gave no output: %s %s" % (why, se.decode("latin-1")[:2000]))
                shutil.rmtree(d, ignore_errors=True)
                start += len(res)
                if done:
                    break
        with ThreadPoolExecutor(jobs) as ex:
            list(ex.map(one, range(jobs)))
        return out

    # -------------------------------------------------------------- schedules
    def run_schedules(self, exe, reqs, timeout=600, mem_gb=8):
        """Explore schedules: each request names a scenario and a strategy.
        Returns the distinct traces as [(request, how, events)]."""
        out, runs, seen = [], [0], set()
        lock = threading.Lock()
        def one(k):
            d = tempfile.mkdtemp(dir=self.scratch)
            f = os.path.join(d, "r.ndjson")
            with open(f, "w") as fh:
                fh.write(json.dumps(reqs[k]) + "\n")
            p = subprocess.Popen(["bash", "-c", "ulimit -v %d -c 0; exec \"$@\"" % (mem_gb * 1024 * 1024), "x", exe, f],
                                 stdout=subprocess.PIPE, stderr=subprocess.PIPE, cwd=d, start_new_session=True)
            try:
                so, se = p.communicate(timeout=timeout)
            except subprocess.TimeoutExpired:
                os.killpg(p.pid, signal.SIGKILL)
                p.communicate()
                raise ToolError("schedule exploration timed out")
            so = so.decode("latin-1")
            if "DONE" not in so or p.returncode != 0:
                raise ToolError("schedule driver failed rc=%s %s %s" % (p.returncode, so[-500:], se.decode("latin-1")[-2000:]))
            res, nr, comp = [], 0, None
            for line in so.split("\n"):
                if line.startswith("T "):
                    head, how, ev = line[2:].split("|", 2)
                    try:
                        res.append((how, json.loads(ev)))
                    except ValueError:
                        raise ToolError("bad trace: " + ev[:500])
                elif line.startswith("RUNS "):
                    nr += int(line[5:])
                elif line.startswith("DFS "):
                    comp = line[4:]
            shutil.rmtree(d, ignore_errors=True)
            with lock:
                runs[0] += nr
                if comp:
                    c = self.cov.setdefault("dfs", dict(complete=0, truncated=0))
                    c[comp] += 1
                for how, ev in res:
                    out.append((k, how, ev))
        with ThreadPoolExecutor(NCPU) as ex:
            list(ex.map(one, range(len(reqs))))
        self.cov["schedules_executed"] = self.cov.get("schedules_executed", 0) + runs[0]
        self.log("executed %d schedules of %d scenarios, %d distinct traces" % (runs[0], len(reqs), len(out)))
        out.sort(key=lambda x: (x[0], x[1]))
        return out

    # -------------------------------------------------------------------- TLC
    def tlc(self, module, cfg, workers=NCPU, extra=(), env=None, timeout=600, heap="6g", jopts=()):
        """Run TLC on spec/<module>.tla with the given cfg text."""
        self.n_tlc += 1
        d = self.path("tlc%d_%s" % (self.n_tlc, module))
        os.makedirs(d)
        cf = os.path.join(d, module + ".cfg")
        with open(cf, "w") as f:
            f.write(cfg)
        e = dict(os.environ)
        e.pop("JAVA_TOOL_OPTIONS", None)
        e.update(env or {})
        cmd = ["java", "-Xss16m", "-Xmx" + heap, "-XX:+UseParallelGC", "-DTLA-Library=" + SPEC, "-Djava.io.tmpdir=" + d] + list(jopts) + \
              ["-cp", TLA_CP, "tlc2.TLC", "-config", cf, "-metadir", os.path.join(d, "meta"), "-noGenerateSpecTE",
               "-workers", str(workers)] + list(extra) + [os.path.join(SPEC, module + ".tla")]
        t = time.time()
        outf = os.path.join(d, "out.txt")
        with open(outf, "w") as of:
            p = subprocess.Popen(cmd, stdout=of, stderr=subprocess.STDOUT, cwd=d, env=e, start_new_session=True)
            try:
                rc = p.wait(timeout=timeout)
            except subprocess.TimeoutExpired:
                os.killpg(p.pid, signal.SIGKILL)
                p.wait()
                raise ToolError("TLC timed out on %s after %ds" % (module, timeout))
        with open(outf, errors="replace") as f:
            txt = "".join(l for l in f if not l.startswith(("Parsing file", "Semantic processing", "Running ", "TLC2 Version", "Linting of")))
        m = re.search(r"(\d+) states generated, (\d+) distinct states found", txt)
        gen, dist = (int(m.group(1)), int(m.group(2))) if m else (0, 0)
        if not m:
            m2 = re.findall(r"states checked: *(\d+)|The number of states generated: (\d+)", txt)
            if m2:
                gen = max(int(x or y) for x, y in m2)
        shutil.rmtree(os.path.join(d, "meta"), ignore_errors=True)
        return dict(rc=rc, out=txt, gen=gen, distinct=dist, wall=time.time() - t, dir=d)

    def model_check(self, module, cfg, what="", **kw):
        """Exhaustive check of the specification itself; a failure here is an
        error of the machinery (the specification does not depend on /repo)."""
        r = self.tlc(module, cfg, **kw)
        if r["rc"] != 0:
            raise ToolError("model checking of %s failed (rc %d)\n%s" % (module, r["rc"], tail(r["out"])))
        self.states += r["distinct"]
        self.transitions += r["gen"]
        self.cov.setdefault("models", []).append(dict(module=module, what=what, states=r["distinct"], transitions=r["gen"],
                                                      wall_s=round(r["wall"], 1)))
        self.log("TLC %s %s: %d distinct states, %d generated, %.1fs" % (module, what, r["distinct"], r["gen"], r["wall"]))
        return r

    def generate(self, module, cfg, what="", **kw):
        """Behaviours of the specification, printed by TLC as '@H' JSON lines."""
        r = self.tlc(module, cfg, **kw)
        hs = []
        for line in r["out"].split("\n"):
            line = line.strip()
            if line.startswith('"@H '):
                hs.append(json.loads(json.loads(line)[3:]))
            elif line.startswith("@H "):
                hs.append(json.loads(line[3:]))
        if not hs or (r["rc"] != 0):
            raise ToolError("generation from %s failed (rc %d)\n%s" % (module, r["rc"], r["out"][-3000:]))
        self.cov.setdefault("generated", []).append(dict(module=module, what=what, behaviours=len(hs), wall_s=round(r["wall"], 1)))
        self.log("TLC generated %d behaviours from %s %s, %.1fs" % (len(hs), module, what, r["wall"]))
        return hs

    def validate(self, module, hists, what="", cfg=None, workers=NCPU, constants="", timeout=400, heap="8g"):
        """Trace validation of deterministic histories: TLC must accept each."""
        if not hists:
            return
        f = self.path("trace%d.json" % self.n_tlc)
        clean = [[{k: v for k, v in ev.items() if k != "stderr"} for ev in h] for h in hists]
        with open(f, "w") as fh:
            json.dump(clean, fh)
        cfg = cfg or ("INIT TInit\nNEXT TNext\nINVARIANT TAccepted\nCHECK_DEADLOCK FALSE\n" + constants)
        r = self.tlc(module, cfg, env=dict(TRACE=f), workers=workers, timeout=timeout, heap=heap, extra=["-continue"] if False else [])
        if r["rc"] == 0:
            n = sum(len(h) for h in hists)
            # every event must have been consumed: one state per position plus the initial state
            if r["distinct"] < n + len(hists):
                raise ToolError("trace validation of %s consumed too little: %d states for %d events in %d histories\n%s" %
                                (module, r["distinct"], n, len(hists), r["out"][-2000:]))
            self.traces += len(hists)
            self.events += n
            self.states += r["distinct"]
            self.transitions += r["gen"]
            self.cov.setdefault("validated", []).append(dict(module=module, what=what, histories=len(hists), events=n,
                                                             wall_s=round(r["wall"], 1)))
            self.log("TLC accepted %d histories (%d events) %s, %.1fs" % (len(hists), n, what, r["wall"]))
            if len(self.samples) < 4:
                self.samples.append(dict(what=what, history=shorten(clean[self.rng.randrange(len(clean))])))
            os.unlink(f)
            return
        m = re.search(r"Invariant (\w+) is violated", r["out"])
        if m:
            tid, pos = last_tid_pos(r["out"])
            h = hists[tid - 1] if tid else []
            raise Violation("%s rejects a recorded history (%s, %s): event %s: %s" %
                            (module, what, m.group(1), pos, json.dumps(h[pos - 1 if pos else 0] if h else None)[:1500]),
                            dict(module=module, invariant=m.group(1), event_index=pos, history=h,
                                 tlc_tail=r["out"][-6000:]))
        raise ToolError("trace validation with %s failed (rc %d)\n%s" % (module, r["rc"], tail(r["out"])))

    def validate_tree(self, module, hists, what="", timeout=500, heap="8g", chunk=60000):
        """Trace validation of histories merged into a prefix tree: TLC tracks
        the set of possible specification states along every branch."""
        n_events = n_nodes = 0
        t0 = time.time()
        pos = 0
        while pos < len(hists):
            nodes, index = [dict(e=dict(k="root"), ch=[])], {}
            parent, first = [0], [pos]
            while pos < len(hists) and len(nodes) < chunk:
                cur = 0
                for ev in hists[pos]:
                    key = (cur, json.dumps(ev, sort_keys=True))
                    nx = index.get(key)
                    if nx is None:
                        nx = len(nodes)
                        index[key] = nx
                        nodes.append(dict(e=ev, ch=[]))
                        nodes[cur]["ch"].append(nx + 1)
                        parent.append(cur)
                        first.append(pos)
                    cur = nx
                n_events += len(hists[pos])
                pos += 1
            f = self.path("tree%d.json" % self.n_tlc)
            with open(f, "w") as fh:
                json.dump(nodes, fh)
            r = self.tlc(module, "INIT TInit\nNEXT TNext\nINVARIANT TAccepted\nCHECK_DEADLOCK FALSE\n", env=dict(TRACE=f), timeout=timeout, heap=heap)
            os.unlink(f)
            if r["rc"] == 0:
                if r["distinct"] != len(nodes):
                    raise ToolError("trace validation of %s: %d states for %d nodes\n%s" % (module, r["distinct"], len(nodes), tail(r["out"])))
                n_nodes += len(nodes)
                self.states += r["distinct"]
                self.transitions += r["gen"]
                continue
            m = re.search(r"Invariant (\w+) is violated", r["out"])
            ns = re.findall(r"node = (\d+)", r["out"])
            if m and ns:
                k = int(ns[-1]) - 1
                path = []
                x = k
                while x:
                    path.append(nodes[x]["e"])
                    x = parent[x]
                path.reverse()
                raise Violation("%s rejects a recorded history (%s): event %d: %s" % (module, what, len(path), json.dumps(nodes[k]["e"])[:1500]),
                                dict(module=module, event_index=len(path), history=path, complete_history=hists[first[k]], tlc_tail=r["out"][-6000:]))
            raise ToolError("trace validation with %s failed (rc %d)\n%s" % (module, r["rc"], tail(r["out"])))
        if hists:
            self.traces += len(hists)
            self.events += n_events
            self.cov.setdefault("validated", []).append(dict(module=module, what=what, histories=len(hists), events=n_events, tree_nodes=n_nodes,
                                                             wall_s=round(time.time() - t0, 1)))
            self.log("TLC accepted %d histories (%d events, %d tree nodes) %s, %.1fs" % (len(hists), n_events, n_nodes, what, time.time() - t0))
            if len(self.samples) < 4:
                self.samples.append(dict(what=what, history=shorten(hists[self.rng.randrange(len(hists))])))

    # --------------------------------------------------------------- evidence
    def evidence(self, violations, level="model_checking"):
        os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
        cov = dict(states=self.states, transitions=self.transitions, traces_validated_against_impl=self.traces,
                   events_validated=self.events, samples=self.samples[:6] or [dict(note="no history accepted in this run")])
        cov.update(self.cov)
        ev = dict(property=self.prop, tier=self.tier, seed=self.seed, level=level, coverage=cov,
                  assumptions=self.assumptions, wall_s=round(time.time() - self.t0, 2), violations=violations)
        with open(os.path.join(VERIF, "evidence", self.prop + ".json"), "w") as f:
            json.dump(ev, f, indent=1)

    def cleanup(self):
        shutil.rmtree(self.scratch, ignore_errors=True)


def tail(txt, n=2500):
    return txt if len(txt) < 2 * n else txt[:n] + "\n...\n" + txt[-n:]


def shorten(x, n=12):
    if isinstance(x, list):
        return x[:n] + (["... %d more" % (len(x) - n)] if len(x) > n else [])
    return x


def last_tid_pos(txt):
    """tid and the position of the rejected event from TLC's error trace."""
    tids = re.findall(r"/\\ tid = (\d+)", txt)
    poss = re.findall(r"/\\ pos = (\d+)", txt)
    return (int(tids[-1]) if tids else None, int(poss[-1]) if poss else None)


def tla_cp():
    cp = [TLA_JAR]
    d = "/opt/veriftools/tla"
    for x in sorted(os.listdir(d)) if os.path.isdir(d) else []:
        if x.endswith(".jar") and os.path.join(d, x) not in cp:
            cp.append(os.path.join(d, x))
    return os.pathsep.join(cp)


TLA_CP = tla_cp()
