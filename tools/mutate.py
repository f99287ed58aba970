#!/usr/bin/env python3
"""mutate.py [-j N] [-n PER_FILE] [-s SEED] FILE=P1,P2...: mutation testing of the checks.
Plants one-line textual changes into copies of /repo and runs the checks of the properties that the file
belongs to (quick tier) until one reports a violation.  Survivors are printed as diffs: each is either
equivalent, outside the properties, or a hole in a check.  Copies of /repo and /verif live under /tmp/mut."""
import argparse, json, os, random, re, shutil, subprocess, sys
from concurrent.futures import ThreadPoolExecutor
from queue import Queue
ap = argparse.ArgumentParser()
ap.add_argument("-j", type=int, default=4)
ap.add_argument("-n", type=int, default=20)
ap.add_argument("-s", type=int, default=1)
ap.add_argument("-o", default="/tmp/mut/log")
ap.add_argument("files", nargs="+")
a = ap.parse_args()

OPS = [(r" < ", " <= "), (r" <= ", " < "), (r" > ", " >= "), (r" >= ", " > "), (r" == ", " != "), (r" != ", " == "),
       (r" && ", " || "), (r" \|\| ", " && "), (r" \+ ", " - "), (r" - ", " + "), (r" \* ", " / "), (r" / ", " * "),
       (r"\btrue\b", "false"), (r"\bfalse\b", "true"), (r"\b0\b(?!\.)", "1"), (r"\b1\b(?!\.)", "2"), (r"\b2\b(?!\.)", "3"),
       (r"0\.5\b", "0.25"), (r"1\.0\b", "2.0"), (r"2\.0\b", "3.0"), (r"\bif ?\(", "if(!"), (r"= -", "= "), (r"\+\+", "--"),
       (r"\.begin\(\)", ".end()"), (r" \+= ", " -= "), (r" -= ", " += "), (r"\.transpose\(\)", ""), (r"std::min", "std::max"), (r"std::max", "std::min"),
       (r"&&|\|\|", None), (r"\bcos\(", "sin("), (r"\bsin\(", "cos("), (r"\(0,", "(1,"), (r",0\)", ",1)"), (r"\[0\]", "[1]"), (r"\[1\]", "[0]"), (r"\[2\]", "[1]"),
       (r"notify_one", "notify_all"), (r"notify_all", "notify_one"), (r"<0>", "<1>")]

def mutants(path, rng):
    lines = open(path).read().split("\n")
    out, comment = [], False
    for i, l in enumerate(lines):
        s = l.strip()
        if comment:
            comment = "*/" not in s
            continue
        if s.startswith("/*"):
            comment = "*/" not in s
            continue
        if not s or s.startswith("//") or s.startswith("#") and not s.startswith("#define") or s.startswith("using") or s.startswith("typedef") or s.startswith("template") or s.startswith("namespace"):
            continue
        code = l.split("//")[0]
        for pat, rep in OPS:
            if rep is None: continue
            for m in re.finditer(pat, code):
                if rep == "if(!":
                    # negate the whole condition when it closes on this line
                    j, d = m.end(), 1
                    while j < len(code) and d:
                        d += {"(": 1, ")": -1}.get(code[j], 0); j += 1
                    if d: continue
                    new = code[:m.end()] + "!(" + code[m.end():j - 1] + ")" + code[j - 1:]
                else:
                    new = code[:m.start()] + rep + code[m.end():]
                out.append((i, new))
        if re.match(r"^[A-Za-z_].*;$", s) and not re.match(r"^(return|const|class|struct|typedef|static|extern|friend|enum|virtual|break;|else|if|for)\b", s) and not re.match(r"^[\w:<>\*& ]+ [\w]+( = .*|\(.*\))?;$", s) and "(" in s or re.match(r"^\w[\w\.\[\]\->]* (=|\+=|-=) .*;$", s):
            out.append((i, re.match(r"^\s*", l).group(0) + ";"))
        if s in ("break;", "continue;"): out.append((i, ";"))
        if re.match(r"^(lock\.|.*scoped_lock|.*lock_guard|.*unique_lock)", s): out.append((i, ";"))
    rng.shuffle(out)
    # prefer different lines
    seen, first, rest = set(), [], []
    for i, n in out:
        (rest if i in seen else first).append((i, n)); seen.add(i)
    return lines, first + rest

jobs = []
for spec in a.files:
    f, ps = spec.split("=")
    rng = random.Random("%s %d" % (f, a.s))
    lines, ms = mutants("/repo/" + f, rng)
    for i, new in ms[:a.n]:
        jobs.append((f, ps.split(","), i, lines[i], new))
random.Random(a.s).shuffle(jobs)
print(len(jobs), "mutants", flush=True)
os.makedirs("/tmp/mut", exist_ok=True)
pool = Queue()
for w in range(a.j):
    r, v = "/tmp/mut/repo%d" % w, "/tmp/mut/verif%d" % w
    for d in (r, v): subprocess.run(["rm", "-rf", d])
    os.makedirs(r)
    subprocess.check_call("git -C /repo archive HEAD | tar x -C %s; mkdir -p %s/evidence; cp -a /verif/check.py /verif/lib /verif/spec /verif/drivers /verif/checks /verif/known_findings.txt /verif/properties.jsonl /verif/MANIFEST.json %s/" % (r, v, v), shell=True)
    pool.put((r, v))
log = open(a.o, "a")
def run(job):
    f, ps, i, old, new = job
    r, v = pool.get()
    try:
        p = os.path.join(r, f)
        orig = open(p).read()
        ls = orig.split("\n"); ls[i] = new
        open(p, "w").write("\n".join(ls))
        res = []
        for x in ps:
            try:
                q = subprocess.run(["python3", "check.py", x], cwd=v, env=dict(os.environ, VERIF_REPO=r), capture_output=True, text=True, timeout=900)
                rc, o = q.returncode, q.stdout + q.stderr
            except subprocess.TimeoutExpired as e:
                rc, o = 99, "timeout"
                subprocess.run("for p in $(ps -eo pid,ppid,cmd | awk '$2==1 && $3 ~ /^\\/tmp\\/vf_/ {print $1}'); do kill -9 $p; done", shell=True)
            if rc == 1 and "VIOLATION" in o: res = ["killed " + x]; break
            if rc == 0: res.append("survived " + x)
            elif re.search(r"error:|undefined reference|ld returned", o): res = ["nocompile"]; break
            else: res.append("TOOLERROR %s rc=%d %s" % (x, rc, o[-300:]))
        s = "%s:%d\n  - %s\n  + %s\n  => %s\n" % (f, i + 1, old.strip(), new.strip(), "; ".join(res))
        log.write(s); log.flush()
        open(p, "w").write(orig)
    finally:
        pool.put((r, v))
with ThreadPoolExecutor(a.j) as ex: list(ex.map(run, jobs))
