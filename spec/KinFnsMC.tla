------------------------------- MODULE KinFnsMC -------------------------------
(* Every call of KinFns with small arguments.                                  *)
EXTENDS KinFns, Json, TLC
CONSTANTS Mode, Depth
VARIABLE c
QS == { <<0, 0, 0, 1>>, <<0, 0, 1, 1>>, <<1, 0, 0, 0>>, <<0, 1, M1, 0>>, <<1, M1, 1, 1>>, <<1, 0, 0, 2>>, <<0, M1, 0, 3>>, <<1, 2, 0 - 2, 0>>, <<1, 2, 3, 1>>, <<0, 1, 0, M1>> }
Rel == { <<1, 0, 0, 2>>, <<0, 1, 0, 3>>, <<1, 0, 1, 2>>, <<0, 0, M1, 1>>, <<M1, 1, 1, 3>>, <<0, 0, 0, 1>>, <<0, 2, 0, 1>>, <<0, 0, 1, 7>> }
TS == { <<0, 0, 0>>, <<1, 0 - 2, 3>>, <<0, 5, M1>> }
V4s == { <<1, 0, 0, 1>>, <<0, M1, 2, 3>>, <<2, 1, M1, 0>>, <<3, 2, 1, 0 - 2>> }
Ang == { [s |-> p[1], c |-> p[2], t |-> p[3]] : p \in {<<0, 1, 0>>, <<1, 1, 0>>, <<M1, 2, 0>>, <<1, 0, 1>>, <<2, M1, 0>>} }
Units == { <<3, 4>>, <<0, M1>>, <<0 - 4, 3>>, <<1, 2, 2>>, <<0, 3, 4>>, <<M1, 0, 0>>, <<2, M1, 0 - 2>>, <<1, 1, 1, 1>>, <<2, 0 - 2, 0, 1>>, <<M1, 1, M1, 1>>, <<0, 0, 0, 2>> }
Clouds == { << <<0, 0, 0>>, <<1, 0, 0>>, <<0, 1, 0>> >>, << <<1, 2, 3>>, <<4, 0, 1>>, <<M1, 1, 0>>, <<2, 2, 2>> >>, << <<0, 0, 0>>, <<2, 0, 0>>, <<0, 3, 0>>, <<0, 0, 5>>, <<2, 3, 5>> >>, << <<1, 0, 0>>, <<0, 1, 0>>, <<M1, 0, 0>>, <<0, M1, 0>> >>, << <<1, 1, 0>>, <<2, 0, M1>>, <<0, 2, 1>> >> }
Rays == { << <<1, 0, 0>>, <<0, 1, 0>> >>, << <<1, 2, 3>>, <<4, 0, 1>>, <<M1, 1, 0>> >>, << <<1, 0, 0>>, <<M1, 0, 0>>, <<0, 0, 2>> >>, << <<1, 1, 0>>, <<1, 1, 1>>, <<0, 1, 1>>, <<1, 0, 1>> >> }
Ms == { << <<1, 2, 3>>, <<4, 5, 6>>, <<7, 8, 9>> >>, << <<0, M1, 0>>, <<1, 0, 0>>, <<0, 0, 2>> >> }
M4s == { << <<1, 2, 3, 4>>, <<5, 6, 7, 8>>, <<9, 10, 11, 12>>, <<13, 14, 15, 16>> >> }
UE == [n \in 2..4 |-> { [i \in 1..n |-> [j \in 1..n |-> IF i = j THEN 2 ELSE 1]], [i \in 1..n |-> [j \in 1..n |-> IF i = j THEN i ELSE 0]], [i \in 1..n |-> [j \in 1..n |-> i * j]] }]
UV == [n \in 2..4 |-> { [i \in 1..n |-> i], [i \in 1..n |-> IF i = 2 THEN 0 - 3 ELSE 0], [i \in 1..n |-> 2 - i] }]
Calls ==
  CASE Mode = "between" ->
         { [c |-> 0, m |-> m, call |-> TRUE, op |-> "slerp", f |-> "interp", q0 |-> q, rr |-> r, neg |-> g, t0 |-> <<1, 0, 2>>, t1 |-> <<0, 3, 0 - 4>>, s0 |-> s[1] * m, s1 |-> s[2] * m, si |-> s[1] * m + k * (s[2] - s[1])] :
             m \in 1..3, q \in {<<0, 0, 0, 1>>, <<1, 0, 1, 0>>, <<1, M1, 1, 1>>}, r \in Rel, g \in BOOLEAN, s \in {<<0, 1>>, <<2, 1>>, <<M1, 0>>}, k \in M1..4 }
         \cup [call : {TRUE}, op : {"slerp"}, f : {"slerp", "qslerp"}, q0 : {<<0, 0, 0, 1>>, <<1, 0, 1, 0>>, <<1, M1, 1, 1>>, <<1, 0, 0, 3>>}, rr : Rel, m : 1..3, neg : BOOLEAN, t0 : {<<1, 0, 2>>}, t1 : {<<0, 3, 0 - 4>>}, c : M1..4]
         \cup { [c |-> 0, m |-> 1, call |-> TRUE, op |-> "slerp", f |-> "interp", q0 |-> q, rr |-> r, neg |-> FALSE, t0 |-> <<1, 0, 2>>, t1 |-> <<0, 3, 0 - 4>>, s0 |-> 3, s1 |-> 3, si |-> k] : q \in {<<1, 0, 1, 0>>}, r \in {<<1, 0, 0, 2>>, <<0, 0, 0, 1>>}, k \in 2..4 }
         \cup [call : {TRUE}, op : {"lerp"}, v : {<<>>, <<1>>, <<1, 0 - 4, 7>>}, w : {<<>>, <<3>>, <<0, 2, 5>>}, c : M1..4, m : {2, 3}]
    [] OTHER -> {}
Turns == { [s |-> p[1], c |-> p[2]] : p \in {<<0, 1>>, <<1, 3>>, <<M1, 3>>, <<1, 4>>} }
Fits0 == [call : {TRUE}, op : {"fit"}, f : {"svd", "qmethod"}, k : 1..3, base : { [s |-> p[1], c |-> p[2]] : p \in {<<0, 1>>, <<1, 1>>, <<2, M1>>, <<1, 0>>} }, a : Turns, b : Turns, la : {1, 3}, lb : {1, 2}, lk : {1, 2},
          o : {<<0, 0, 0>>, <<2, M1, 3>>}, t : {<<1, 0, 0 - 2>>}]
All ==
  IF Mode = "fit" THEN { [h2 |-> FitDir(e)[1] * FitDir(e)[1] + FitDir(e)[2] * FitDir(e)[2]] @@ e : e \in { e \in Fits0 : e.f = "svd" \/ e.o = <<0, 0, 0>> } }
  ELSE IF Mode = "between" THEN Calls ELSE IF Mode = "vectors" THEN
     UNION { [call : {TRUE}, op : {"uv"}, f : {"self", "default", "certain", "zero"}, form : 0..1, v : UV[n], E : UE[n]] \cup [call : {TRUE}, op : {"uv"}, f : {"add", "sub", "addc", "subc", "dot", "dotc", "mulS", "muld", "Svec"}, form : 0..3, v : UV[n], E : UE[n], w : UV[n], F : UE[n], s : {0 - 2, 3}, sE : {0, 5}]
             \cup [call : {TRUE}, op : {"uv"}, f : {"mat"}, form : 0..1, v : UV[n], E : UE[n], F : UE[n]] : n \in 2..4 }
     \cup UNION { [call : {TRUE}, op : {"uv"}, f : {"norm"}, form : 0..3, v : {v}, E : UE[Len(v)]] : v \in Units }
     \cup [call : {TRUE}, op : {"scalar"}, f : {"self", "default", "certain", "zero", "add", "sub", "addc", "subc", "mul", "mulc", "div", "divc"}, form : 0..3, v : {0 - 3, 0, 2}, E : {0, 3}, w : {M1, 4}, F : {0, 2}]
  ELSE
     [call : {TRUE}, op : {"rt2"}, m : Ms, v : TS] \cup [call : {TRUE}, op : {"t2C", "t2rho", "t2rhoH"}, m : M4s] \cup [call : {TRUE}, op : {"inverse", "boxTimes", "fromTEuler"}, q : QS, t : TS, d : {1, 2}]
     \cup [call : {TRUE}, op : {"toTEuler"}, t : {<<1, 0 - 2, 3>>}, a : Ang \X Ang \X Ang, form : 0..1] \cup [call : {TRUE}, op : {"boxPlus"}, v : {<<1, 2, 3, 4, 5, 6>>, <<0, 0 - 7, 0, 0, 0, 9>>}]
     \cup [call : {TRUE}, op : {"boxMinus", "HPlus", "HMinus"}, v : V4s \cup {<<1, 2, 3, 4>>}] \cup [call : {TRUE}, op : {"toH"}, f : {"jac", "jacobian", "both", "val"}, v : TS] \cup [call : {TRUE}, op : {"fromH"}, f : {"jac", "jacobian", "both", "val"}, v : { v \in V4s : v[4] # 0 }]
     \cup [call : {TRUE}, op : {"toHC", "fromHC"}, m : Ms \cup M4s \cup { << <<1, 2, 3>>, <<2, 0 - 4, 5>> >>, << <<6>>, <<2>>, <<3>> >> }] \cup [call : {TRUE}, op : {"normalize"}, f : {"jac", "both", "val"}, v : Units \cup {<<0 - 5, 12>>, <<2, 3, 0 - 6>>, <<2, 0 - 4, 0, 4>>}]
     \cup [call : {TRUE}, op : {"tJac", "itJac"}, f : {"jac", "val"}, q : QS, t : TS, d : {1, 2}, v : V4s] \cup [call : {TRUE}, op : {"hJac"}, f : {"jac", "val"}, v : V4s] \cup [call : {TRUE}, op : {"eJac"}, f : {"jac", "val"}, v : { v \in V4s : v[4] # 0 }]
     \cup [call : {TRUE}, op : {"svd"}, p : Clouds, q : QS, t : TS, d : {1}] \cup UNION { [call : {TRUE}, op : {"qmethod"}, p : {p}, q : QS, form : {0, 1}, w : {[i \in 1..Len(p) |-> 1]}] \cup [call : {TRUE}, op : {"qmethod"}, p : {p}, q : QS, form : {0}, w : {[i \in 1..Len(p) |-> i], [i \in 1..Len(p) |-> IF i = 1 THEN 0 ELSE 3]}] : p \in Rays }
RECURSIVE Pow(_, _)
Pow(x, n) == IF n = 0 THEN 1 ELSE x * Pow(x, n - 1)
Valid(e) == IF e.op = "slerp" THEN e.m * N(e.q0) * Pow(N(e.rr), e.m) <= 10000 ELSE e.op = "fromHC" => \A j \in 1..Len(e.m[1]) : e.m[Len(e.m)][j] # 0
Init == c \in { e \in All : Valid(e) }
Next == FALSE /\ UNCHANGED c
Bound == PrintT("@H " \o ToJson(<<c>>))
(* the laws the answers are built on                                           *)
Same(a, b) == a.m = b.m /\ a.d = b.d
Laws ==
  CASE c.op = "inverse" -> Same(RMM(PoseOf(c.q, c.t, c.d), InvPose(c.q, c.t, c.d)), Rat(Eye(4), 1))
    [] c.op = "normalize" -> MV(NormJ(c.v, Sq(c.v)), c.v) = Scale(0, c.v) /\ Root(Sq(c.v)) * Root(Sq(c.v)) = Sq(c.v)
    [] c.op = "eJac" -> MV(T(HJac(c.v)), c.v) = <<0, 0, 0>>
    [] c.op = "slerp" /\ c.f # "interp" -> Short(c) => Same(Between(c, 0), PoseOf(c.q0, IF c.f = "qslerp" THEN <<0, 0, 0>> ELSE c.t0, 1)) /\ Same(Between(c, c.m), PoseOf(QProd(c.q0, QPow(c.rr, c.m)), IF c.f = "qslerp" THEN <<0, 0, 0>> ELSE c.t1, 1))
    [] OTHER -> TRUE
===============================================================================
