------------------------------ MODULE Rotations -------------------------------
(* Rotations of sm_kinematics in exact arithmetic.  A rotation is an integer  *)
(* quaternion q = <<x, y, z, w>> # 0 of any length; its matrix is Mat(q) / N(q) *)
(* (left-handed convention of the package).  An angle is [s, c, t]:           *)
(* 2 atan2(s, c) + 2 pi t.  The recorded numbers are exact integers (results  *)
(* times a known scale) or fractions <<n, d>>.  Registers hold one rotation   *)
(* each, in some representation: conversions change the representation only.  *)
EXTENDS Exact
Principal(f, a) == CASE f = "Rx" -> QX(a, M0) [] f = "Ry" -> QY(a, M0) [] f = "Rz" -> QZ(a, M0) [] f = "Cx" -> QX(a, 1) [] f = "Cy" -> QY(a, 1) [] f = "Cz" -> QZ(a, 1)

(* ------------------------------------------------------------ single calls  *)
IsMat(e, m) == e.r.k = "mat" /\ e.r.d = m
IsVec(e, v) == e.r.k = "vec" /\ e.r.d = v
UpToSign(e, v) == e.r.k = "vec" /\ (e.r.d = v \/ e.r.d = Neg(v))
(* small angles v (in the order of the parameterisation) turn by Cross(axes)  *)
SmallAxes(f, v) == CASE f = "rph" -> v [] f = "rphC" -> Neg(v) [] f = "zyx" -> Neg(<<v[3], v[2], v[1]>>) [] f = "ypr" -> <<v[3], v[2], v[1]>> [] f = "zxy" -> <<v[2], v[3], v[1]>>
SmallAngles(f, v) == CASE f = "toRph" -> Neg(v) [] f = "toRphC" -> v [] f = "toZyx" -> <<v[3], v[2], v[1]>> [] f = "toYpr" -> Neg(<<v[3], v[2], v[1]>>) [] f = "toZxy" -> Neg(<<v[3], v[1], v[2]>>)
Good(e) ==
  CASE e.op = "prod" -> IF e.f \in {"qplus", "quatPlus"} THEN IsVec(e, QProd(e.q, e.p)) ELSE IsVec(e, QProd(e.p, e.q))
    [] e.op = "update" -> UpToSign(e, QProd(e.p, e.q))
    [] e.op = "inv" -> IsVec(e, QInv(e.q))
    [] e.op = "parts" -> IsVec(e, e.q)
    [] e.op = "identity" -> IsVec(e, <<0, 0, 0, 1>>)
    [] e.op = "toR" -> IsMat(e, Mat(e.q))
    [] e.op = "r2quat" -> UpToSign(e, e.q) /\ e.r.d[4] >= 0
    [] e.op = "toAA" -> UpToSign(e, e.q) /\ e.r.short
    [] e.op = "aa2quat" -> UpToSign(e, e.q)
    [] e.op = "rotate" -> IsVec(e, MV(Mat(e.q), e.v))
    [] e.op = "R2rod" -> IsVec(e, <<e.q[1], e.q[2], e.q[3]>>)
    [] e.op = "principal" -> IsMat(e, Mat(Principal(e.f, e.a)))
    [] e.op = "euler" -> IsMat(e, Mat(Euler(e.f, e.a)))
    [] e.op = "toEuler" -> IsMat(e, Mat(e.q))
    [] e.op = "same" -> e.r.k = "same" /\ (e.a[2].c * e.a[2].c > e.a[2].s * e.a[2].s => e.r.same)
    [] e.op = "angleMod" -> e.r.k = "vec" /\ e.r.d = <<e.a.c * e.a.c - e.a.s * e.a.s, 2 * e.a.s * e.a.c>> /\ e.r.inside
    [] e.op \in {"deg2rad", "rad2deg"} -> e.r.k = "vec" /\ e.r.d = <<e.n>>
    [] e.op = "cross" -> IsMat(e, Cross(e.v))
    \* quatInvS(q) and quatJacobian(q) are half the first three columns of OPlus(q), quatS(q) is twice the transpose of OPlus(q) there
    [] e.op = "quatS" -> IsMat(e, LET o == OPlus(e.q) IN [j \in 1..3 |-> [i \in 1..4 |-> 2 * o[i][j]]])
    [] e.op = "quatInvS2" -> IsMat(e, LET o == OPlus(e.q) IN [i \in 1..4 |-> [j \in 1..3 |-> o[i][j]]])
    \* rotations by 2 eps v, eps = 2^-k, up to terms of second order: what differs from the identity, divided by eps (by 2 eps for matrices)
    [] e.op = "small" -> CASE e.f \in {"quat2r", "aa", "axis", "rotvec", "rod"} -> IsMat(e, Cross(Neg(e.v)))
                           [] e.f \in {"rph", "rphC", "zyx", "ypr", "zxy"} -> IsMat(e, Cross(SmallAxes(e.f, e.v)))
                           [] e.f \in {"aa2quat", "update", "r2quat"} -> IsVec(e, e.v \o <<1>>)
                           [] e.f \in {"double", "float", "qlog", "R2AxisAngle", "rv", "R2rod"} -> IsVec(e, e.v)
                           [] e.f \in {"toRph", "toRphC", "toZyx", "toYpr", "toZxy"} -> IsVec(e, SmallAngles(e.f, e.v))
                           [] OTHER -> FALSE
    \* rotations by pi - 2 s eps about u: the axis, and what is missing to half a turn, divided by eps (by 2 eps for angles)
    [] e.op = "half" -> CASE e.f \in {"double", "float", "qlog", "aa2quat"} -> IsVec(e, e.u \o <<e.s>>)
                          [] e.f \in {"R2AxisAngle", "rv", "r2quat", "R2rod"} -> IsVec(e, Scale(e.s, e.u) \o <<1>>)
                          [] OTHER -> FALSE
    \* a second angle of s (pi/2 - eps): recovered with its sign, its distance to pi/2 divided by eps, the other two angles recovered too
    [] e.op = "gimbal" -> IsVec(e, <<e.s, 1>>) /\ e.r.same
    [] OTHER -> FALSE

(* --------------------------------------------------------------- registers  *)
Id == [q |-> <<0, 0, 0, 1>>, kind |-> "quat"]
SInit == [i \in 1..3 |-> Id]
(* conversions: the representation needed and the one returned                *)
Conv == [quat2r |-> <<"quat", "R">>, r2quat |-> <<"R", "quat">>, quat2AxisAngle |-> <<"quat", "aa">>, axisAngle2quat |-> <<"aa", "quat">>,
         axisAngle2R |-> <<"aa", "R">>, axisAngle2Rxyz |-> <<"aa", "R">>, axisAngle2Raxis |-> <<"aa", "R">>, R2AxisAngle |-> <<"R", "aa">>,
         RotationVector |-> <<"aa", "R">>, toRotationVector |-> <<"R", "aa">>, EulerRodriguez |-> <<"rod", "R">>, toEulerRodriguez |-> <<"R", "rod">>,
         rph2R |-> <<"rph", "R">>, R2rph |-> <<"R", "rph">>, rph2C |-> <<"rphC", "R">>, C2rph |-> <<"R", "rphC">>, C2rphX |-> <<"R", "rphC">>,
         zyx |-> <<"zyx", "R">>, toZyx |-> <<"R", "zyx">>, ypr |-> <<"ypr", "R">>, toYpr |-> <<"R", "ypr">>, zxy |-> <<"zxy", "R">>, toZxy |-> <<"R", "zxy">>]
(* half turns have no Rodriguez parameters                                    *)
Allowed(s, i, f) == /\ s[i].kind = Conv[f][1]
                    /\ (f = "toEulerRodriguez" => s[i].q[4] # 0)
IsRot(r, q) == r.k = "rat" /\ AllNum(r.d, Mat(q), N(q))
IsPt(r, q, v) == r.k = "ratv" /\ VecNum(r.d, MV(Mat(q), v), N(q))
Just(b, x) == IF b THEN {x} ELSE {}
Put(s, i, q, kind) == [s EXCEPT ![i] = [q |-> q, kind |-> kind]]
Registers == {"set", "to", "mul", "rinv", "rotv", "get"}
SNext(s, e) ==
  CASE e.op = "set" -> Just(IsRot(e.r, e.q), Put(s, e.i, Prim(e.q), "quat"))
    [] e.op = "to" -> Just(Allowed(s, e.i, e.f) /\ IsRot(e.r, s[e.i].q), Put(s, e.i, s[e.i].q, Conv[e.f][2]))
    [] e.op = "mul" -> LET q == Prim(QProd(s[e.i].q, s[e.j].q)) IN Just(s[e.i].kind = s[e.j].kind /\ s[e.i].kind \in {"quat", "R"} /\ IsRot(e.r, q), Put(s, e.n, q, s[e.i].kind))
    [] e.op = "rinv" -> LET q == QInv(s[e.i].q) IN Just(s[e.i].kind \in {"quat", "R", "aa"} /\ IsRot(e.r, q), Put(s, e.n, q, s[e.i].kind))
    [] e.op = "rotv" -> Just(s[e.i].kind \in {"quat", "R"} /\ IsPt(e.r, s[e.i].q, e.v), s)
    [] e.op = "get" -> Just(IsRot(e.r, s[e.i].q), s)
    [] OTHER -> Just(Good(e), s)
===============================================================================
