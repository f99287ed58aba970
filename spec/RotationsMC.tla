----------------------------- MODULE RotationsMC ------------------------------
(* All single calls with small quaternions and angles; all conversion paths.  *)
EXTENDS Rotations, Json, TLC
CONSTANTS Mode, Depth
VARIABLES hist, st
M == 0 - 1
Quats(S) == { <<a, b, c, d>> : a \in S, b \in S, c \in S, d \in S } \ {<<0, 0, 0, 0>>}
Q1 == Quats({M, 0, 1})
Q2 == Quats({0 - 2, M, 0, 1, 2})
Tiny == { <<a, b, c, w>> : a \in {0, 1}, b \in {0, M}, c \in {0, 1, 2}, w \in {60, 0 - 60, 900, 20000, 12000} } \ { <<0, 0, 0, w>> : w \in {60, 0 - 60, 900, 20000, 12000} }
Near == { <<a, b, c, d>> : a \in {0, 1, 60}, b \in {0, 1, 60}, c \in {0, 2, 60}, d \in {0, 1, M} } \ (Q2 \cup {<<0, 0, 0, 0>>})   \* nearly half turns
Angles == { [s |-> p[1], c |-> p[2], t |-> t] : p \in {<<0, 1>>, <<1, 0>>, <<1, 1>>, <<M, 1>>, <<1, M>>, <<1, 2>>, <<2, M>>, <<0 - 3, 1>>}, t \in {0, 1, 0 - 2} }
SomeAng == { [s |-> p[1], c |-> p[2], t |-> 0] : p \in {<<0, 1>>, <<1, 0>>, <<1, 1>>, <<M, 1>>, <<1, 2>>, <<2, M>>, <<1, 9>>} }
Some2 == { [s |-> p[1], c |-> p[2], t |-> 0] : p \in {<<0, 1>>, <<1, 1>>, <<M, 2>>, <<2, M>>, <<0 - 3, M>>} }
Units == {<<1, 0, 0>>, <<0, M, 0>>, <<0, 0, 1>>, <<1, 2, 0 - 2>>, <<2, 0 - 3, 6>>, <<0 - 3, 4, 0>>, <<4, 0 - 4, 7>>}   \* integer length
Half(q) == q[4] = 0
Of(q) == { [op |-> "toR", f |-> f, q |-> q, t |-> t, form |-> k] : f \in {"quat2r", "aa", "axis", "rotvec"}, t \in {0, 2}, k \in {0, 1} }
         \cup (IF Half(q) THEN {} ELSE { [op |-> "toR", f |-> "rod", q |-> q, t |-> 0, form |-> k] : k \in {0, 1} } \cup {[op |-> "R2rod", q |-> q]})
         \cup { [op |-> o, q |-> q, form |-> k] : o \in {"inv", "parts", "quatInvS2"}, k \in {0, 1} }
         \cup { [op |-> o, q |-> q] : o \in {"r2quat", "quatS"} }
         \cup { [op |-> "toAA", f |-> f, q |-> q] : f \in {"R2AxisAngle", "rv"} }
         \cup { [op |-> "toAA", f |-> f, q |-> q] : f \in {"double", "float", "qlog"} }
         \cup { [op |-> "aa2quat", q |-> q, t |-> t, form |-> k] : t \in {0, M, 2}, k \in {0, 1} }
         \cup { [op |-> "rotate", q |-> q, v |-> v] : v \in {<<1, 0, 0>>, <<0, 1, 0>>, <<0, 0, 1>>, <<3, 0 - 1, 2>>} }
         \cup { [op |-> "toEuler", f |-> f, q |-> q, form |-> 0] : f \in {"rph", "rphC", "zyx", "ypr", "zxy"} }
Calls ==
  CASE Mode = "one" -> UNION { Of(q) : q \in IF Depth > 1 THEN Q2 ELSE Q1 \cup { q \in Q2 : Gcd(Gcd(Abs(q[1]), Abs(q[2])), Gcd(Abs(q[3]), Abs(q[4]))) = 1 /\ q[1] >= 0 /\ q[2] <= 0 } }
    [] Mode = "tiny" -> UNION { { e \in Of(q) : e.op \in {"toR", "R2rod", "r2quat", "aa2quat", "toAA"} /\ (e.op = "toAA" /\ e.f = "float" => Abs(q[4]) = 60) } : q \in Tiny }
                        \cup UNION { { e \in Of(q) : e.op \in {"r2quat", "toR", "aa2quat", "toAA", "toEuler"} /\ (e.op = "toR" => e.f # "rod") } : q \in Near }
    [] Mode = "two" -> [op : {"prod"}, f : {"qplus", "qoplus", "quatPlus", "quatOPlus"}, q : Q1, p : Q1] \cup [op : {"update"}, q : { q \in Q1 : q[1] >= 0 }, p : { q \in Q1 : q[2] >= 0 }, t : {0, 1}]
    [] Mode = "limits" -> [op : {"small"}, f : {"quat2r", "aa", "axis", "rotvec", "rod", "rph", "rphC", "zyx", "ypr", "zxy", "aa2quat", "update", "r2quat", "double", "float", "qlog", "R2AxisAngle", "rv", "R2rod",
                                                 "toRph", "toRphC", "toZyx", "toYpr", "toZxy"}, v : {<<1, 0, 0>>, <<0, 0 - 2, 0>>, <<0, 0, 1>>, <<1, 2, 0 - 2>>, <<0 - 3, 1, 2>>}, k : {13, 17, 20, 24, 27, 34, 38}, form : {0, 1}]
                          \cup { e \in [op : {"half"}, f : {"double", "float", "qlog", "aa2quat", "R2AxisAngle", "rv", "r2quat", "R2rod"}, u : Units, k : {8, 12, 16, 22, 26, 30}, s : {1, M}, form : {0, 1}] : e.f = "float" => e.k <= 16 }
                          \cup [op : {"gimbal"}, f : {"rph", "rphC", "zyx", "ypr", "zxy"}, a : { <<x, y>> : x \in Some2, y \in Some2 }, k : {8, 13, 19, 25, 30}, s : {1, M}, form : {0, 1}]
    [] Mode = "angle" -> [op : {"principal"}, f : {"Rx", "Ry", "Rz", "Cx", "Cy", "Cz"}, a : Angles] \cup [op : {"angleMod"}, a : { [a EXCEPT !.t = t] : a \in Angles, t \in {0, 1, M, 7, 0 - 1000, 1000000} }]
                         \cup [op : {"deg2rad", "rad2deg"}, n : {0, 1, M, 45, 90, 180, 0 - 270, 360, 725}] \cup [op : {"cross"}, v : {M, 0, 2} \X {0, 1, 3} \X {M, 0, 5}, form : 0..5] \cup {[op |-> "identity"]}
    [] Mode = "euler" -> [op : {"euler"}, f : {"rph", "rphC", "zyx", "ypr", "zxy"}, a : SomeAng \X SomeAng \X SomeAng, form : 0..1] \cup [op : {"same"}, f : {"rph", "rphC", "zyx", "ypr", "zxy"}, a : SomeAng \X SomeAng \X SomeAng, form : {0}]
    [] OTHER -> {}
Starts == { <<0, 0, 0, 1>>, <<0, 0, 0, M>>, <<1, 0, 0, 0>>, <<0, 1, 1, 0>>, <<M, 0, 1, 0>>, <<1, 0, 0, 1>>, <<0, 1, 0, 1>>, <<0, 1, 0, M>>, <<0, 0, 1, 1>>, <<1, 1, 1, 1>>, <<1, M, 1, M>>,
            <<1, 2, 0 - 2, 0>>, <<1, 2, 3, 4>>, <<0 - 2, 1, 0, 2>>, <<0, 3, 0, 4>>, <<1, 0, 0, 30>>, <<30, 1, 0, 1>>, <<0, 20, 1, 20>>, <<20, 0, M, 20>> }
Init == IF Mode = "paths" THEN \E q \in Starts : hist = << [op |-> "set", i |-> 1, q |-> q] >> /\ st = Put(SInit, 1, Prim(q), "quat") ELSE \E c \in Calls : hist = <<c>> /\ st = SInit
Next == /\ Mode = "paths" /\ Len(hist) <= Depth
        /\ \E f \in DOMAIN Conv : /\ Allowed(st, 1, f)
                                  /\ hist' = Append(hist, [op |-> "to", i |-> 1, f |-> f])
                                  /\ st' = Put(st, 1, st[1].q, Conv[f][2])
Bound == IF Mode = "paths" THEN (Len(hist) <= Depth \/ PrintT("@H " \o ToJson(hist))) ELSE PrintT("@H " \o ToJson(hist))
E == hist[1]
(* the laws the answers are built on                                          *)
Laws ==
  CASE Mode = "two" -> /\ Mat(QProd(E.q, E.p)) = MM(Mat(E.q), Mat(E.p)) /\ MV(OPlus(E.q), E.p) = QProd(E.p, E.q) /\ N(QProd(E.q, E.p)) = N(E.q) * N(E.p)
    [] Mode = "one" -> /\ Mat(QInv(E.q)) = T(Mat(E.q)) /\ MMT(Mat(E.q), Mat(E.q)) = MScale(N(E.q) * N(E.q), << <<1, 0, 0>>, <<0, 1, 0>>, <<0, 0, 1>> >>)
                       /\ Mat(Neg(E.q)) = Mat(E.q) /\ QProd(E.q, QInv(E.q)) = <<0, 0, 0, N(E.q)>>
                       /\ MM(T(OPlus(E.q)), OPlus(E.q)) = MScale(N(E.q), << <<1, 0, 0, 0>>, <<0, 1, 0, 0>>, <<0, 0, 1, 0>>, <<0, 0, 0, 1>> >>)
    [] Mode = "paths" -> st[1].kind \in {"quat", "R", "aa", "rod", "rph", "rphC", "zyx", "ypr", "zxy"} /\ N(st[1].q) > 0
    [] OTHER -> TRUE
===============================================================================
