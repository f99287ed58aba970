"""sm_kinematics: K01 (rotations), K02 (transformations), K03 (uncertainty), K04 (derivatives)."""
import json
from math import gcd
from common import MC, STATELESS

KIN = ["sm_kinematics/src/%s.cpp" % x for x in ("Transformation", "UncertainTransformation", "HomogeneousPoint", "UncertainHomogeneousPoint", "quaternion_algebra", "transformations", "rotations",
       "homogeneous_coordinates", "RotationalKinematics", "EulerAnglesZYX", "EulerAnglesYawPitchRoll", "EulerAnglesZXY", "EulerRodriguez", "RotationVector", "three_point_methods")] + ["sm_random/src/random.cpp"]
ROT = [x for x in KIN if x.split("/")[-1].split(".")[0] in ("quaternion_algebra", "rotations", "RotationalKinematics", "EulerAnglesZYX", "EulerAnglesYawPitchRoll", "EulerAnglesZXY", "EulerRodriguez", "RotationVector")]

# ----------------------------------------------------------------- quaternions
def qprod(q, p):
    return [q[3]*p[0] + q[2]*p[1] - q[1]*p[2] + q[0]*p[3], -q[2]*p[0] + q[3]*p[1] + q[0]*p[2] + q[1]*p[3],
            q[1]*p[0] - q[0]*p[1] + q[3]*p[2] + q[2]*p[3], -q[0]*p[0] - q[1]*p[1] - q[2]*p[2] + q[3]*p[3]]

def prim(q):
    g = gcd(gcd(q[0], q[1]), gcd(q[2], q[3]))
    return [x // g for x in q]

def norm(q):
    return sum(x * x for x in q)

def quat(rng, m=3):
    while True:
        q = [rng.randrange(-m, m + 1) for _ in range(4)]
        if rng.random() < 0.3:
            q[rng.randrange(4)] = 0
        if rng.random() < 0.2:
            q[rng.randrange(4)] *= rng.choice([5, 12])
        if any(q):
            return q

OCT = [[0, 0, 0, 1], [1, 0, 0, 1], [0, 1, 0, 1], [0, 0, 1, 1], [1, 0, 0, 0], [0, 1, 0, 0], [0, 0, 1, 0], [1, 1, 0, 0], [1, 0, 1, 0], [0, 1, -1, 0], [1, 1, 1, 1], [1, -1, 1, 1], [-1, 1, 1, 1], [1, 1, -1, 1], [1, 0, 0, -1]]
CONV = {"quat": ["quat2r", "quat2AxisAngle"], "aa": ["axisAngle2quat", "axisAngle2R", "axisAngle2Rxyz", "axisAngle2Raxis", "RotationVector"],
        "R": ["r2quat", "R2AxisAngle", "toRotationVector", "toEulerRodriguez", "R2rph", "C2rph", "C2rphX", "toZyx", "toYpr", "toZxy"],
        "rod": ["EulerRodriguez"], "rph": ["rph2R"], "rphC": ["rph2C"], "zyx": ["zyx"], "ypr": ["ypr"], "zxy": ["zxy"]}
GIVES = dict(quat2r="R", quat2AxisAngle="aa", axisAngle2quat="quat", r2quat="quat", R2AxisAngle="aa", toRotationVector="aa", toEulerRodriguez="rod", R2rph="rph", C2rph="rphC", C2rphX="rphC", toZyx="zyx", toYpr="ypr", toZxy="zxy")

def rotation_history(rng):
    reg = {i: ([0, 0, 0, 1], "quat") for i in (1, 2, 3)}
    h = []
    oct_only = rng.random() < 0.4
    for _ in range(rng.choice([20, 50])):
        i, j, n = rng.randrange(1, 4), rng.randrange(1, 4), rng.randrange(1, 4)
        o = rng.choice(["set", "to", "to", "to", "to", "mul", "mul", "rinv", "rotv"])
        q, k = reg[i]
        if o == "set":
            q = rng.choice(OCT) if oct_only else quat(rng, rng.choice([1, 2, 4]))
            h.append(dict(op="set", i=i, q=q)); reg[i] = (prim(q), "quat")
        elif o == "to":
            f = rng.choice([f for f in CONV[k] if f != "toEulerRodriguez" or q[3]])
            h.append(dict(op="to", i=i, f=f)); reg[i] = (q, GIVES.get(f, "R"))
        elif o == "mul":
            p, k2 = reg[j]
            r = prim(qprod(q, p))
            if k == k2 and k in ("quat", "R") and norm(r) <= 1500:
                h.append(dict(op="mul", i=i, j=j, n=n, form=rng.randrange(2))); reg[n] = (r, k)
        elif o == "rinv" and k in ("quat", "R", "aa"):
            h.append(dict(op="rinv", i=i, n=n)); reg[n] = ([-q[0], -q[1], -q[2], q[3]], k)
        elif o == "rotv" and k in ("quat", "R"):
            h.append(dict(op="rotv", i=i, v=[rng.randrange(-9, 10) for _ in range(3)]))
        else:
            h.append(dict(op="get", i=i))
    return h

def angle(rng, t=True):
    while True:
        s, c = rng.randrange(-4, 5), rng.randrange(-4, 5)
        if rng.random() < 0.15:
            c *= 8
        if s or c:
            return dict(s=s, c=c, t=rng.choice([0, 0, 0, 1, -1, 3, -20]) if t else 0)

def rotation_call(rng):
    o = rng.choice(["prod", "update", "inv", "toR", "toR", "r2quat", "toAA", "aa2quat", "rotate", "R2rod", "principal", "euler", "toEuler", "toEuler", "same", "angleMod", "cross", "quatS", "quatInvS2"])
    q = quat(rng, rng.choice([1, 2, 5, 9]))
    if rng.random() < 0.15:
        q = [rng.randrange(-2, 3), rng.randrange(-2, 3), 1, rng.choice([-1, 1]) * rng.randrange(30, 20000)]
    e = dict(op=o, form=rng.randrange(2))
    if o == "prod":
        e.update(f=rng.choice(["qplus", "qoplus", "quatPlus", "quatOPlus"]), q=q, p=quat(rng, 6))
    elif o == "update":
        e.update(q=quat(rng, 5), p=quat(rng, 5), t=rng.choice([0, 0, 1, -1]))
    elif o == "toR":
        f = rng.choice(["quat2r", "aa", "axis", "rotvec", "rod"])
        e.update(f=f if f != "rod" or q[3] else "aa", q=q, t=rng.choice([0, 0, 1, -3]))
    elif o in ("aa2quat",):
        e.update(q=q, t=rng.choice([0, 0, 1, -3]))
    elif o == "toAA":
        f = rng.choice(["double", "qlog", "float", "R2AxisAngle", "rv"])
        if f == "float":
            q = quat(rng, 9) if rng.random() < 0.7 else [1, 0, rng.randrange(3), rng.randrange(20, 120)]
        e.update(f=f, q=q)
    elif o == "rotate":
        e.update(q=quat(rng, 9), v=[rng.randrange(-50, 51) for _ in range(3)])
    elif o == "R2rod":
        if not q[3]:
            q[3] = 1
        e.update(q=q)
    elif o == "principal":
        e.update(f=rng.choice(["Rx", "Ry", "Rz", "Cx", "Cy", "Cz"]), a=angle(rng))
    elif o == "euler":
        e.update(f=rng.choice(["rph", "rphC", "zyx", "ypr", "zxy"]), a=[angle(rng) for _ in range(3)])
        e["form"] = rng.randrange(3) if e["f"] == "rphC" else e["form"]
    elif o == "same":
        e.update(f=rng.choice(["rph", "rphC", "zyx", "ypr", "zxy"]), a=[angle(rng) for _ in range(3)])
    elif o == "toEuler":
        e.update(f=rng.choice(["rph", "rphC", "zyx", "ypr", "zxy"]), q=quat(rng, 9))
    elif o == "angleMod":
        a = angle(rng)
        a["t"] = rng.choice([a["t"], rng.randrange(-10 ** 6, 10 ** 6)])
        e.update(a=a)
    elif o == "cross":
        e.update(v=[rng.randrange(-99, 100) for _ in range(3)], form=rng.randrange(6))
    else:
        e.update(q=q)
    return e

def K01(ctx):
    exe = ctx.build("rotations", ["rotations.cpp"], ROT)
    for mode, most in (("one", ctx.pick(5000, 10 ** 6)), ("tiny", ctx.pick(4000, 10 ** 6)), ("two", ctx.pick(3000, 10 ** 6)), ("limits", 10 ** 6), ("angle", 10 ** 6), ("euler", 10 ** 6)):
        g = ctx.generate("RotationsMC", MC % (ctx.pick(1, 2), mode), "every call: " + mode)
        cs = [h[0] for h in (g if len(g) <= most else ctx.rng.sample(g, most))]
        ctx.validate("RotationsTrace", ctx.run_histories(exe, [cs[i:i + 20] for i in range(0, len(cs), 20)]), "calls: " + mode)
    g = ctx.generate("RotationsMC", MC % (ctx.pick(4, 6), "paths"), "conversion paths")
    ctx.validate("RotationsTrace", ctx.run_histories(exe, g if len(g) <= ctx.pick(3000, 40000) else ctx.rng.sample(g, ctx.pick(3000, 40000))), "conversion paths")
    hs = [rotation_history(ctx.rng) for _ in range(ctx.pick(200, 4000))] + [[rotation_call(ctx.rng) for _ in range(30)] for _ in range(ctx.pick(200, 4000))]
    ctx.validate("RotationsTrace", ctx.run_histories(exe, hs), "random histories and calls")

# ------------------------------------------------------ K02, K03: transformations
def transform_calls(ctx, exe, *modes):
    for mode, most in modes:
        g = ctx.generate("KinFnsMC", MC % (1, mode), "every call: " + mode)
        cs = [h[0] for h in (g if len(g) <= most else ctx.rng.sample(g, most))]
        # the unit of time of an interpolation, in powers of two: the result does not depend on it
        cs = [dict(c, u=ctx.rng.choice([0, 0, -30, -34, 12])) if c.get("f") == "interp" else c for c in cs]
        ctx.validate("KinFnsTrace", ctx.run_histories(exe, [cs[i:i + 20] for i in range(0, len(cs), 20)]), "calls: " + mode, cfg=STATELESS)

def transform_histories(ctx, exe, small, long_mode, n, depth):
    for mode, d, most in small:
        g = ctx.generate("TransformsMC", MC % (d, mode), "every history: %s depth %d" % (mode, d))
        ctx.validate("TransformsTrace", ctx.run_histories(exe, g if len(g) <= most else ctx.rng.sample(g, most)), "histories: " + mode)
    g = ctx.generate("TransformsMC", MC % (depth, long_mode), "random histories", workers=1, extra=["-simulate", "num=%d" % n, "-depth", str(depth), "-seed", str(ctx.seed)])
    g = [list(h) for h in {json.dumps(h): h for h in g}.values()]
    ctx.validate("TransformsTrace", ctx.run_histories(exe, g), "random histories")

def K02(ctx):
    exe = ctx.build("transforms", ["transforms.cpp"], KIN)
    transform_calls(ctx, exe, ("matrix", ctx.pick(3000, 10 ** 6)), ("fit", ctx.pick(1500, 10 ** 6)), ("between", ctx.pick(4000, 10 ** 6)))
    transform_histories(ctx, exe, [("plain", 2, ctx.pick(2000, 10 ** 6)), ("points", 2, ctx.pick(3000, 10 ** 6))], "random", ctx.pick(300, 3000), 60)

def K03(ctx):
    exe = ctx.build("transforms", ["transforms.cpp"], KIN)
    transform_calls(ctx, exe, ("vectors", ctx.pick(10000, 10 ** 6)))
    transform_histories(ctx, exe, [("cov", 1, 10 ** 6), ("pcov", 1, ctx.pick(4000, 10 ** 6))], "urandom", ctx.pick(300, 3000), 60)

# ------------------------------------------------------------- K04: derivatives
def derivative_call(rng):
    o = rng.choice(["euler", "euler", "rod", "S", "Inv", "exp", "log", "J", "J"])
    if o == "euler":
        return dict(op="euler", f=rng.choice(["zyx", "ypr", "zxy"]), g=rng.choice("SJo").replace("o", "omega"), a=[dict(s=rng.randrange(-4, 5), c=rng.choice([-4, -3, -2, -1, 1, 2, 3, 4]), t=rng.choice([0, 0, 1, -3])) for _ in range(3)], w=[rng.randrange(-9, 10) for _ in range(3)], form=rng.randrange(2))
    q = quat(rng, rng.choice([1, 3, 6]))
    if not any(q[:3]):
        q[rng.randrange(3)] = 1
    if o == "rod":
        q = [x % 12 for x in q]
        q[3] = q[3] or 2
        return dict(op="euler", f="rod", g=rng.choice("SJo").replace("o", "omega"), q=q, w=[rng.randrange(-5, 6) for _ in range(3)], form=rng.randrange(2))
    t = rng.choice([0, 0, 0, 1, -1, 3])
    return dict(S=lambda: dict(op=o, f=rng.choice(["rv", "rvC", "rvJ", "exp"] + ([] if t else ["expf"])), q=q, t=t), Inv=lambda: dict(op=o, f=rng.choice(["rvInv", "log"]), q=q, t=t), exp=lambda: dict(op=o, f="qexp", q=q, t=t),
                log=lambda: dict(op=o, f=rng.choice(["log1", "log2"] + (["log2f"] if q[3] >= 0 and norm(q) < 150 else [])), q=q), J=lambda: dict(op=o, f="rv", q=q, t=rng.choice([0, 0, 1, 2]), d=[rng.randrange(-5, 6) for _ in range(3)]))[o]()

def K04(ctx):
    exe = ctx.build("derivs", ["derivs.cpp"], ROT)
    for mode, most in (("limits", 10 ** 6), ("jacobian", 10 ** 6), ("vector", 10 ** 6), ("euler", ctx.pick(5000, 10 ** 6))):
        g = ctx.generate("KinDerivsMC", MC % (ctx.pick(1, 2), mode), "every call: " + mode)
        cs = [h[0] for h in (g if len(g) <= most else ctx.rng.sample(g, most))]
        ctx.validate("KinDerivsTrace", ctx.run_histories(exe, [cs[i:i + 20] for i in range(0, len(cs), 20)]), "calls: " + mode, cfg=STATELESS)
    hs = [[derivative_call(ctx.rng) for _ in range(30)] for _ in range(ctx.pick(200, 4000))]
    ctx.validate("KinDerivsTrace", ctx.run_histories(exe, hs), "random calls", cfg=STATELESS)

# ---------------------------------------------------- K05: objects as containers
import struct
PT = ["sm_property_tree/src/%s.cpp" % x for x in ("PropertyTree", "PropertyTreeImplementation", "BoostPropertyTree", "BoostPropertyTreeImplementation", "BoostPropertyTreeSupport")]
SIZES = dict(T=7, U=43, H=4, P=20, A=2, B=6, C=12, D=20)

def odd_number(rng):
    if rng.random() < 0.5:
        return str(rng.randrange(-99, 100))
    x = rng.choice([0.1, -1 / 3, 1e-300, 1e300, 5e-324, -0.0, 1.7976931348623157e308, rng.random(), rng.gauss(0, 1e6), 123456.789, 1e-7 * rng.random()])
    if x == int(x) and abs(x) < 1e6 and not (x == 0 and str(x)[0] == "-"):
        return str(int(x))
    return "x%016x" % int.from_bytes(struct.pack("<d", x), "little")

def object_history(rng):
    h, files = [], {}
    some = rng.sample("TUHPABCD", rng.choice([1, 2, 4]))
    def slot(t=None):
        return (t or rng.choice(some)) + rng.choice("01")
    for _ in range(rng.choice([3, 8])):
        s = slot()
        o = rng.choice(["set", "set", "part", "fresh", "copy", "equal", "random", "files", "fload", "arch", "newer"])
        if o == "set":
            h.append(dict(op="set", s=s, c=[odd_number(rng) for _ in range(SIZES[s[0]])]))
        elif o == "part":
            c = [odd_number(rng).replace("x8000000000000000", "1") for _ in range(SIZES[s[0]])]
            d = list(c)
            i = rng.randrange(len(c))
            d[i] = rng.choice(["4", "5"]) if c[i] != "4" else "6"
            h += [dict(op="set", s=s[0] + "0", c=c), dict(op="set", s=s[0] + "1", c=d), dict(op="equal", s=s[0] + "1", **{"from": s[0] + "0"})]
        elif o == "fresh":
            h.append(dict(op="fresh", s=s))
        elif o == "copy":
            h.append(dict(op="copy", s=s, **{"from": slot(s[0])}))
        elif o == "equal":
            h += [dict(op="copy", s=s[0] + "0", **{"from": s[0] + "1"}), dict(op="equal", s=s[0] + "0", **{"from": s[0] + "1"})]
        elif o == "random":
            e = dict(op="random", s=s, seed=rng.randrange(10 ** 6))
            if s[0] in "TU" and rng.random() < 0.6:
                e.update(tmax=rng.choice([0, 1, 64, 6400]), rmax=rng.choice([1, 10, 100, 200, 400]))
            h.append(e)
        elif o == "files":
            name, f = rng.choice("ab"), rng.choice(["text", "binary", "xml"])
            h.append(dict(op="fsave", s=s, name=name, f=f))
            files[name] = (s[0], f)
        elif o == "fload" and files:
            name = rng.choice(sorted(files))
            t, f = files[name]
            h.append(dict(op="fload", s=slot(t), name=name, f=f))
        elif o == "newer":
            h.append(dict(op="newer", s=s, v=rng.choice([0, 1, 2, 3])))
        elif o == "arch":
            h.append(dict(op="create", f=rng.choice(["text", "binary", "xml"])))
            saved = [slot() for _ in range(rng.choice([1, 3, 6]))]
            for x in saved:
                if rng.random() < 0.5:
                    h.append(dict(op="random", s=x, seed=rng.randrange(10 ** 6)))
                h.append(dict(op="save", s=x))
            h.append(dict(op="open"))
            h += [dict(op="load", s=slot(x[0])) for x in saved]
    return h + [dict(op="show", s=t + i) for t in some for i in "01"]

def K05(ctx):
    exe = ctx.build("kinobjects", ["kinobjects.cpp"], KIN + PT, libs=["boost_serialization", "boost_filesystem", "boost_system"], opt="-O0")
    for mode in ("parts", "file", "arch", "other"):
        g = ctx.generate("KinObjectsMC", MC % (ctx.pick(0, 1), mode), "every type: " + mode)
        ctx.validate("KinObjectsTrace", ctx.run_histories(exe, g), "every type: " + mode)
    ctx.validate("KinObjectsTrace", ctx.run_histories(exe, [object_history(ctx.rng) for _ in range(ctx.pick(300, 4000))]), "random histories")
