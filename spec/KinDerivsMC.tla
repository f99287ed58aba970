----------------------------- MODULE KinDerivsMC ------------------------------
(* Every call of KinDerivs with small arguments.                              *)
EXTENDS KinDerivs, Json, TLC
CONSTANTS Mode, Depth
VARIABLE c
Quats(S) == { <<a, b, d, w>> : a \in S, b \in S, d \in S, w \in S }
NoV(q) == q[1] = 0 /\ q[2] = 0 /\ q[3] = 0
Q1 == { q \in Quats({M1, 0, 1}) : ~NoV(q) }
Q2 == { q \in Quats({0 - 2, M1, 0, 1, 2}) : ~NoV(q) /\ q[1] >= 0 }
Qs == { <<1, 0, 0, 5>>, <<0, 1, 1, 30>>, <<1, 2, 3, 0 - 1>>, <<0 - 3, 1, 2, 60>>, <<0, 60, 0, 1>>, <<5, 4, 0, 0 - 3>>, <<1, 1, 1, 9>>, <<2, 0, M1, 0 - 20>> }
QAll == Q1 \cup Qs \cup (IF Depth > 1 THEN Q2 ELSE {})
Ang == { [s |-> p[1], c |-> p[2], t |-> p[3]] : p \in {<<0, 1, 0>>, <<1, 1, 0>>, <<M1, 1, 1>>, <<1, 2, 0>>, <<2, M1, 0>>, <<1, 0, M1>>} \cup (IF Depth > 1 THEN {<<0 - 3, 1, 0>>, <<1, 7, 0>>} ELSE {}) }
Ws == { <<1, 0, 0>>, <<0, 1, 0>>, <<0, 0, 1>>, <<3, 0 - 2, 5>> }
Dirs3 == { <<1, 0, 0>>, <<0, M1, 0>>, <<0, 0, 2>>, <<1, 2, 0 - 2>>, <<0 - 3, 1, 2>> }
Turns == {0, 1, 0 - 2}
EulerT == {"zyx", "ypr", "zxy"}
Calls ==
  CASE Mode = "euler" -> [op : {"euler"}, g : {"S"}, f : EulerT, a : Ang \X Ang \X Ang, form : 0..2] \cup [op : {"euler"}, g : {"J"}, f : EulerT, a : Ang \X Ang \X Ang, w : IF Depth > 1 THEN Ws ELSE {<<3, 0 - 2, 5>>}] \cup [op : {"euler"}, g : {"omega"}, f : EulerT, a : Ang \X Ang \X Ang, w : {<<3, 0 - 2, 5>>}, form : 0..1]
                         \cup { e \in [op : {"euler"}, g : {"S"}, f : {"rod"}, q : QAll \cup {<<0, 0, 0, 1>>}, form : 0..2] \cup [op : {"euler"}, g : {"J"}, f : {"rod"}, q : QAll \cup {<<0, 0, 0, 1>>}, w : Ws] \cup [op : {"euler"}, g : {"omega"}, f : {"rod"}, q : QAll, w : Ws, form : 0..1] : e.q[4] # 0 }
    [] Mode = "vector" -> [op : {"S"}, f : {"rv", "rvC", "rvJ", "exp"}, q : QAll, t : Turns] \cup [op : {"S"}, f : {"expf"}, q : QAll, t : {0}] \cup [op : {"Inv"}, f : {"rvInv", "log", "logf"}, q : QAll, t : {0}] \cup [op : {"Inv"}, f : {"rvInv", "log"}, q : QAll, t : Turns]
                          \cup [op : {"exp"}, f : {"qexp", "qexpf"}, q : QAll, t : {0}] \cup [op : {"exp"}, f : {"qexp"}, q : QAll, t : {1, M1}] \cup [op : {"log"}, f : {"log1", "log2"}, q : QAll] \cup [op : {"log"}, f : {"log2f"}, q : { q \in QAll : q[4] >= 0 - 2 }]
    [] Mode = "jacobian" -> [op : {"J"}, f : {"rv"}, q : QAll, t : {0, 1}, d : Ws]
    [] Mode = "limits" -> [op : {"zero"}, f : {"rv", "rvC", "rvJ", "exp", "expf", "rvInv", "log", "logf", "qexp", "qexpf", "qlog", "qlogf"}] \cup [op : {"zero"}, f : {"J"}, d : Ws]
                          \cup [op : {"small"}, f : {"rv", "rvC", "rvJ", "exp", "rvInv", "log"}, v : Dirs3, k : 7..18] \cup [op : {"small"}, f : {"expf", "logf"}, v : Dirs3, k : 5..8] \cup [op : {"small"}, f : {"J"}, v : Dirs3, d : Ws, k : 7..40]
Init == c \in Calls
Next == FALSE /\ UNCHANGED c
Bound == PrintT("@H " \o ToJson(<<c>>))
(* the laws the answers are built on: S v = v, S^-1 undoes S, the quaternion of *)
(* three angles turns about the columns of S, Jacobians are linear in pdot      *)
Laws ==
  CASE c.op = "euler" /\ c.f # "rod" -> c.g = "S" /\ c.form = 0 /\ Prod3(c.a) <= 30000 => /\ \A i \in 1..3 : Dot(SCol(c.f, c.a, i), SCol(c.f, c.a, i)) = Prod3(c.a) * Prod3(c.a)                         \* unit axes
                                        /\ \A i, j \in 1..3 : DCol(c.f, c.a, i, j) = IF j < i THEN Scale(0 - 2, [k \in 1..3 |-> CrossV(SCol(c.f, c.a, j), SCol(c.f, c.a, i))[k] \div Prod3(c.a)]) ELSE <<0, 0, 0>>
    [] c.op = "euler" /\ c.f = "rod" -> MV(RS(c.q), V3(c.q)) = Scale(2 * c.q[4] * c.q[4], V3(c.q))
    [] c.op = "S" -> MM(Y(c.q), T(Y(c.q))) = MScale(4 * N(c.q), MM(X(c.q), T(X(c.q))))                                                                 \* |Y x| = 2 sqrt(N) |X x|
    [] c.op = "J" -> MV(T(JA(c.q, V3(c.q))), V3(c.q)) = <<0, 0, 0, 0>>
    [] OTHER -> TRUE
===============================================================================
