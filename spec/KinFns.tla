-------------------------------- MODULE KinFns --------------------------------
(* Functions on transformations, homogeneous coordinates and uncertain         *)
(* vectors: each recorded call is judged alone, against exact results.         *)
EXTENDS Exact
M1 == 0 - 1
X(e, m, d) == e.r.k = "mat" /\ RIs(e.r.d, Rat(m, d))
XR(e, a) == e.r.k = "mat" /\ RIs(e.r.d, a)
V2(e, v, vd, u, ud) == e.r.k = "uv" /\ e.r.same /\ RIs(e.r.v, Rat(Col(v), vd)) /\ RIs(e.r.U, Rat(u, ud))
RECURSIVE QPow(_, _)
QPow(r, n) == IF n = 0 THEN <<0, 0, 0, 1>> ELSE QProd(r, QPow(r, n - 1))
Clip(c, m) == IF c < 0 THEN 0 ELSE IF c > m THEN m ELSE c
Pose(q, n, t, d) == Rat([i \in 1..4 |-> [j \in 1..4 |-> IF i = 4 THEN (IF j = 4 THEN n * d ELSE 0) ELSE IF j = 4 THEN t[i] * n ELSE Mat(q)[i][j] * d]], n * d)
PoseOf(q, t, d) == Pose(q, N(q), t, d)
Lerp(v, w, c, m) == [i \in 1..Len(v) |-> v[i] * (m - c) + w[i] * c]
(* the pose at c / m of the way from q0, t0 to q0 r^m, t1                      *)
Between(e, c) == PoseOf(Prim(QProd(e.q0, QPow(e.rr, c))), IF e.f = "qslerp" THEN <<0, 0, 0>> ELSE Lerp(e.t0, e.t1, c, e.m), e.m)
Short(e) == \A i \in 1..e.m : QPow(e.rr, i)[4] > 0
InvPose(q, t, d) == RMM(Rat([i \in 1..4 |-> [j \in 1..4 |-> IF i = 4 \/ j = 4 THEN IF i = j THEN N(q) ELSE 0 ELSE Mat(QInv(q))[i][j]]], N(q)),
                        Rat([i \in 1..4 |-> [j \in 1..4 |-> IF j = 4 /\ i < 4 THEN 0 - t[i] ELSE IF i = j THEN d ELSE 0]], d))
Cr(v) == Cross(<<v[1], v[2], v[3]>>)
Box(i, j, n, a, b, c) == IF i <= 3 /\ j <= 3 THEN a[i][j] ELSE IF i > 3 /\ j > 3 THEN c[i - 3][j - 3] ELSE IF i <= 3 THEN b[i][j - 3] ELSE 0
Root(n) == CHOOSE k \in 0..60 : k * k = n
Sq(v) == Dot(v, v)
OuterP(v, w) == [i \in 1..Len(v) |-> [j \in 1..Len(w) |-> v[i] * w[j]]]
AddM(a, b) == [i \in 1..Len(a) |-> [j \in 1..Len(a[i]) |-> a[i][j] + b[i][j]]]
Quad(u, v) == Dot(v, MV(u, v))
(* d(v / |v|) / dv = (n I - v v^T) / n^(3/2), n = |v|^2                         *)
NormJ(v, n) == [i \in 1..Len(v) |-> [j \in 1..Len(v) |-> (IF i = j THEN n ELSE 0) - v[i] * v[j]]]
BoxMinusV(v) == << <<v[4], 0, 0, 0, 0 - v[3], v[2]>>, <<0, v[4], 0, v[3], 0, 0 - v[1]>>, <<0, 0, v[4], 0 - v[2], v[1], 0>>, <<0, 0, 0, 0, 0, 0>> >>
CrossV(v, w) == <<v[2] * w[3] - v[3] * w[2], v[3] * w[1] - v[1] * w[3], v[1] * w[2] - v[2] * w[1]>>
Diff(v, w) == [i \in 1..Len(v) |-> v[i] - w[i]]
(* the points determine a rotation                                             *)
Spread(p) == \E i, j \in 1..Len(p) : CrossV(Diff(p[i], p[1]), Diff(p[j], p[1])) # <<0, 0, 0>>
Directions(p, w) == \E i, j \in 1..Len(p) : w[i] > 0 /\ w[j] > 0 /\ CrossV(p[i], p[j]) # <<0, 0, 0>>
(* as functions of a small turn dp of the unit 4-vector: the first columns of OPlus / 2 *)
HJac(v) == [i \in 1..4 |-> [j \in 1..3 |-> OPlus(v)[i][j]]]
EJac(v) == MM([i \in 1..3 |-> [j \in 1..4 |-> IF j = 4 THEN 0 - v[i] ELSE IF i = j THEN v[4] ELSE 0]], HJac(v))   \* times 2 w^2
(* fitting a rotation about axis k to data which no rotation fits exactly: the  *)
(* pairs along axis k+1 (weight la) turn by base + a, those along axis k+2      *)
(* (weight lb) by base + b; the best is the turn with direction FitDir.         *)
E2(x) == <<x.c * x.c - x.s * x.s, 2 * x.s * x.c>>
CM(x, y) == <<x[1] * y[1] - x[2] * y[2], x[1] * y[2] + x[2] * y[1]>>
FitDir(e) == LET wa == (IF e.f = "svd" THEN e.la * e.la ELSE e.la) * (e.b.s * e.b.s + e.b.c * e.b.c)  wb == (IF e.f = "svd" THEN e.lb * e.lb ELSE e.lb) * (e.a.s * e.a.s + e.a.c * e.a.c)
             IN CM(E2(e.base), <<wa * E2(e.a)[1] + wb * E2(e.b)[1], wa * E2(e.a)[2] + wb * E2(e.b)[2]>>)
FitM(e, u) == [i \in 1..3 |-> [j \in 1..3 |-> IF i = e.k \/ j = e.k THEN (IF i = j THEN 1 ELSE 0)
                                              ELSE IF i = j THEN u[1] ELSE IF j = (i % 3) + 1 THEN 0 - u[2] ELSE u[2]]]
FitV(e, m) == MV(m, e.o)
FitOk(r, m) == r.k = "mat" /\ r.d = m
Good(e) ==
  CASE e.op = "slerp" -> Short(e) => IF e.f = "interp" THEN XR(e, Between(e, Clip(IF e.s0 = e.s1 THEN (IF e.si > e.s0 THEN e.m ELSE 0) ELSE IF e.s0 < e.s1 THEN e.si - e.s0 ELSE e.s0 - e.si, e.m)))
                         ELSE XR(e, Between(e, Clip(e.c, e.m)))
    [] e.op = "lerp" -> IF Len(e.v) # Len(e.w) THEN e.r.k = "exc" ELSE X(e, Col(Lerp(e.v, e.w, Clip(e.c, e.m), e.m)), e.m)
    [] e.op = "rt2" -> X(e, [i \in 1..4 |-> IF i = 4 THEN <<0, 0, 0, 1>> ELSE Append(e.m[i], e.v[i])], 1)
    [] e.op = "t2C" -> X(e, Block(e.m, 1, 1, 3, 3), 1)
    [] e.op = "t2rho" -> X(e, Block(e.m, 1, 4, 3, 1), 1)
    [] e.op = "t2rhoH" -> X(e, Block(e.m, 1, 4, 4, 1), 1)
    [] e.op = "inverse" -> XR(e, InvPose(e.q, e.t, e.d))
    [] e.op = "toTEuler" -> XR(e, Pose(Euler("rphC", e.a), N(Euler("rphC", e.a)), e.t, 1))
    [] e.op = "fromTEuler" -> XR(e, PoseOf(e.q, e.t, e.d))
    [] e.op = "boxPlus" -> X(e, << <<0, 0 - e.v[6], e.v[5], 0 - e.v[1]>>, <<e.v[6], 0, 0 - e.v[4], 0 - e.v[2]>>, <<0 - e.v[5], e.v[4], 0, 0 - e.v[3]>>, <<0, 0, 0, 0>> >>, 1)
    [] e.op = "boxMinus" -> X(e, BoxMinusV(e.v), 1)
    [] e.op = "boxTimes" -> X(e, [i \in 1..6 |-> [j \in 1..6 |-> Box(i, j, 0, MScale(e.d, Mat(e.q)), MScale(M1, MM(Cr(e.t), Mat(e.q))), MScale(e.d, Mat(e.q)))]], N(e.q) * e.d)
    [] e.op = "HPlus" -> X(e, [i \in 1..4 |-> [j \in 1..4 |-> IF i = j THEN e.v[4] ELSE IF j = 4 THEN e.v[i] ELSE 0]], 1)
    [] e.op = "HMinus" -> X(e, [i \in 1..4 |-> [j \in 1..4 |-> IF i = j THEN e.v[4] ELSE IF j = 4 THEN 0 - e.v[i] ELSE 0]], 1)
    [] e.op = "toH" -> IF e.f \in {"jac", "jacobian"} THEN X(e, [i \in 1..4 |-> [j \in 1..3 |-> IF i = j THEN 1 ELSE 0]], 1) ELSE X(e, Col(Append(e.v, 1)), 1)
    [] e.op = "fromH" -> IF e.f \in {"jac", "jacobian"} THEN X(e, [i \in 1..3 |-> [j \in 1..4 |-> IF j = 4 THEN 0 - e.v[i] ELSE IF i = j THEN e.v[4] ELSE 0]], e.v[4] * e.v[4])
                         ELSE X(e, [i \in 1..3 |-> <<e.v[i] * e.v[4]>>], e.v[4] * e.v[4])
    [] e.op = "toHC" -> X(e, Append(e.m, [j \in 1..Len(e.m[1]) |-> 1]), 1)
    [] e.op = "fromHC" -> e.r.k = "mat" /\ Len(e.r.d) = Len(e.m) - 1 /\ \A i \in 1..Len(e.m) - 1 : Len(e.r.d[i]) = Len(e.m[1]) /\ \A j \in 1..Len(e.m[1]) : IsNum(e.r.d[i][j], e.m[i][j] * e.m[Len(e.m)][j], e.m[Len(e.m)][j] * e.m[Len(e.m)][j])
    [] e.op = "normalize" -> IF e.f = "jac" THEN X(e, NormJ(e.v, Sq(e.v)), Root(Sq(e.v)) * Sq(e.v)) ELSE X(e, Col(e.v), Root(Sq(e.v)))
    [] e.op = "tJac" -> LET p == RMM(PoseOf(e.q, e.t, e.d), Rat(Col(e.v), 1)) IN IF e.f = "jac" THEN X(e, BoxMinusV([i \in 1..4 |-> p.m[i][1]]), p.d) ELSE XR(e, p)
    [] e.op = "itJac" -> IF e.f = "jac" THEN X(e, [i \in 1..4 |-> [j \in 1..6 |-> IF i = 4 THEN 0 ELSE IF j <= 3 THEN 0 - e.v[4] * Mat(QInv(e.q))[i][j] ELSE 0 - MM(Mat(QInv(e.q)), Cr(e.v))[i][j - 3]]], N(e.q))
                         ELSE XR(e, RMM(InvPose(e.q, e.t, e.d), Rat(Col(e.v), 1)))
    [] e.op = "hJac" -> IF e.f = "jac" THEN X(e, HJac(e.v), 2) ELSE X(e, Col(e.v), 1)
    [] e.op = "eJac" -> IF e.f = "jac" THEN X(e, EJac(e.v), 2 * e.v[4] * e.v[4]) ELSE X(e, [i \in 1..3 |-> <<e.v[i] * e.v[4]>>], e.v[4] * e.v[4])
    [] e.op = "svd" -> Spread(e.p) => XR(e, PoseOf(e.q, e.t, e.d))
    [] e.op = "fit" -> LET m == Now(FitM(e, Now(FitDir(e)))) IN e.h2 = FitDir(e)[1] * FitDir(e)[1] + FitDir(e)[2] * FitDir(e)[2]
                       /\ FitOk(e.r, IF e.f = "svd" THEN Append(m, FitV(e, m)) ELSE m)
    [] e.op = "qmethod" -> Directions(e.p, e.w) => X(e, Mat(e.q), N(e.q))
    [] e.op = "uv" ->
       CASE e.f = "self" -> V2(e, e.v, 1, e.E, 1)
         [] e.f \in {"default", "zero"} -> V2(e, Scale(0, e.v), 1, MScale(0, e.E), 1)
         [] e.f = "certain" -> V2(e, e.v, 1, MScale(0, e.E), 1)
         [] e.f = "norm" -> V2(e, e.v, Root(Sq(e.v)), MM(MM(NormJ(e.v, Sq(e.v)), e.E), NormJ(e.v, Sq(e.v))), Sq(e.v) * Sq(e.v) * Sq(e.v))
         [] e.f = "mat" -> V2(e, MV(e.F, e.v), 1, MM(MM(e.F, e.E), T(e.F)), 1)
         [] e.f = "add" -> V2(e, [i \in 1..Len(e.v) |-> e.v[i] + e.w[i]], 1, AddM(e.E, e.F), 1)
         [] e.f = "sub" -> V2(e, Diff(e.v, e.w), 1, AddM(e.E, e.F), 1)
         [] e.f = "addc" -> V2(e, [i \in 1..Len(e.v) |-> e.v[i] + e.w[i]], 1, e.E, 1)
         [] e.f = "subc" -> V2(e, Diff(e.v, e.w), 1, e.E, 1)
         [] e.f = "dot" -> V2(e, <<Dot(e.v, e.w)>>, 1, << <<Quad(e.F, e.v) + Quad(e.E, e.w)>> >>, 1)
         [] e.f = "dotc" -> V2(e, <<Dot(e.v, e.w)>>, 1, << <<Quad(e.E, e.w)>> >>, 1)
         [] e.f = "mulS" -> V2(e, Scale(e.s, e.v), 1, AddM(MScale(e.sE, OuterP(e.v, e.v)), MScale(e.s * e.s, e.E)), 1)
         [] e.f = "muld" -> V2(e, Scale(e.s, e.v), 1, MScale(e.s * e.s, e.E), 1)
         [] e.f = "Svec" -> V2(e, Scale(e.s, e.w), 1, MScale(e.sE, OuterP(e.w, e.w)), 1)
         [] OTHER -> FALSE
    [] e.op = "scalar" ->
       CASE e.f = "self" -> V2(e, <<e.v>>, 1, << <<e.E>> >>, 1)
         [] e.f \in {"default", "zero"} -> V2(e, <<0>>, 1, << <<0>> >>, 1)
         [] e.f = "certain" -> V2(e, <<e.v>>, 1, << <<0>> >>, 1)
         [] e.f = "add" -> V2(e, <<e.v + e.w>>, 1, << <<e.E + e.F>> >>, 1)
         [] e.f = "sub" -> V2(e, <<e.v - e.w>>, 1, << <<e.E + e.F>> >>, 1)
         [] e.f = "addc" -> V2(e, <<e.v + e.w>>, 1, << <<e.E>> >>, 1)
         [] e.f = "subc" -> V2(e, <<e.v - e.w>>, 1, << <<e.E>> >>, 1)
         [] e.f = "mul" -> V2(e, <<e.v * e.w>>, 1, << <<e.w * e.w * e.E + e.v * e.v * e.F>> >>, 1)
         [] e.f = "mulc" -> V2(e, <<e.v * e.w>>, 1, << <<e.w * e.w * e.E>> >>, 1)
         [] e.f = "div" -> V2(e, <<e.v * e.w>>, e.w * e.w, << <<e.w * e.w * e.E + e.v * e.v * e.F>> >>, e.w * e.w * e.w * e.w)
         [] e.f = "divc" -> V2(e, <<e.v * e.w>>, e.w * e.w, << <<e.E>> >>, e.w * e.w)
         [] OTHER -> FALSE
    [] OTHER -> FALSE
===============================================================================
