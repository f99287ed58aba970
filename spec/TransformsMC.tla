----------------------------- MODULE TransformsMC -----------------------------
(* Behaviours of Transforms: every one over small alphabets (modes laws,       *)
(* plain, points, cov, pcov), random long ones (random, urandom; simulation).  *)
EXTENDS Transforms, Json, TLC
CONSTANTS Mode, Depth
VARIABLES hist, st
M == 0 - 1
Oct == { <<0, 0, 0, 1>>, <<1, 0, 0, 1>>, <<0, 1, 0, 1>>, <<0, 0, 1, 1>>, <<1, 0, 0, 0>>, <<0, 1, 0, 0>>, <<0, 0, 1, 0>>, <<1, 1, 0, 0>>, <<1, 0, 1, 0>>, <<0, 1, M, 0>>, <<1, 1, 1, 1>>, <<1, M, 1, 1>>, <<M, 1, 1, 1>>, <<1, 1, M, 1>>, <<1, 0, 0, M>>, <<0, 0, 0, 0 - 3>> }
Gen == { <<1, 0, 0, 2>>, <<1, M, 0, 2>>, <<2, 0, M, 0>>, <<1, 1, 1, 0>>, <<1, 2, 1, M>>, <<0, 3, 0, 1>>, <<1, 2, 3, 1>>, <<0, 0, 1, 3>>, <<M, M, 0, 1>>, <<2, 0, 0, M>> }
Out(v, w) == [i \in 1..Len(v) |-> [j \in 1..Len(v) |-> v[i] * v[j] + w[i] * w[j]]]
R(S) == RandomElement(S)
RV(S, n) == [i \in 1..n |-> R(S)]
RU(n) == R({ Now(Out(p[1], p[2])) : p \in { Now(<<RV({M, 0, 0, 1, 2}, n), RV({M, 0, 0, 1}, n)>>) } })
NZ1(v) == IF \A i \in 1..4 : v[i] = 0 THEN [v EXCEPT ![4] = 1] ELSE v
NZ(v) == NZ1(Now(v))
RQ(x) == IF R(1..4) = 1 THEN R(Gen) ELSE R(Oct)
Fin3(v) == <<v[1], v[2], v[3], 1>>
UnitH == { <<v, 1>> : v \in { <<1, 0, 0, 0>>, <<0, M, 0, 0>>, <<0, 0, 1, 0>>, <<0, 0, 0, 1>>, <<0, 0, 0, M>> } } \cup { <<v, 2>> : v \in {<<1, 1, 1, 1>>, <<M, 1, 1, M>>} } \cup { <<v, 5>> : v \in {<<0, 3, 0, 4>>, <<1, 2, 2, 4>>, <<2, 0 - 2, M, 0 - 4>>, <<3, 0, 4, 0>>} }
TF(u) == IF u THEN {"uqtU", "umatU", "uTU", "uqtd", "umatd", "uTd", "uqt", "umat", "uT", "udefault", "qt", "setmat", "identity"} ELSE {"qt", "qt", "mat", "setmat", "default", "identity"}
QE(x) == [qs |-> R(0..3)]                                                       \* how the quaternion is scaled
TSet(u, f, q, t, d) == IF f \in {"uqtU", "umatU", "uTU"} THEN [op |-> "tset", n |-> R(1..3), f |-> f, q |-> q, t |-> t, d |-> d, U |-> RU(6), ud |-> R({1, 1, 2, 4})] @@ QE(0)
                       ELSE IF f \in {"uqtd", "umatd", "uTd"} THEN [op |-> "tset", n |-> R(1..3), f |-> f, q |-> q, t |-> t, d |-> d, a |-> R(0..3), b |-> R(0..3), ud |-> R({1, 2})] @@ QE(0)
                       ELSE [op |-> "tset", n |-> R(1..3), f |-> f, q |-> q, t |-> t, d |-> d] @@ QE(0)
PF(u) == IF u THEN {"u3", "u4", "uP", "u3U", "u3U", "u4U", "u4U", "uPU", "u4av", "uPav", "=3", "=4", "set3", "set4", "setX", "zero", "udefault", "p3", "p4"} ELSE {"p3", "p4", "p4", "=3", "=4", "set3", "set4", "setX", "zero", "default"}
Three == {"p3", "=3", "set3", "u3", "u3U"}
PSetH(f, h, d) == IF f \in {"u3U", "u4U", "uPU"} THEN [op |-> "pset", n |-> R(1..3), f |-> f, h |-> h, d |-> d, U |-> RU(IF f = "u3U" THEN 3 ELSE 4), ud |-> R({1, 1, 2})]
                  ELSE IF f \in {"u4av", "uPav"} THEN [op |-> "pset", n |-> R(1..3), f |-> f, h |-> h, d |-> d, U |-> RU(3), ud |-> R({1, 1, 2})]
                  ELSE [op |-> "pset", n |-> R(1..3), f |-> f, h |-> h, d |-> d]
PSetH2(f, p) == PSetH(f, p[1], p[2])
PSet(f) == IF f \in Three THEN PSetH(f, Append(RV(0 - 4 .. 4, 3), 1), 1) ELSE IF f \in {"u4av", "uPav"} \/ R(1..3) = 1 THEN PSetH2(f, R(UnitH)) ELSE PSetH(f, NZ(Append(RV(0 - 3 .. 3, 3), R({1, 1, 1, 2, M, 0, 0 - 2}))), 1)
GetF(f) == IF f \in {"v3", "r3"} THEN [op |-> "tget", f |-> f, i |-> R(1..3), v |-> RV(0 - 4 .. 4, 3)] ELSE IF f \in {"v4", "r4"} THEN [op |-> "tget", f |-> f, i |-> R(1..3), v |-> RV(0 - 4 .. 4, 4)]
           ELSE IF f = "ruv" THEN [op |-> "tget", f |-> f, i |-> R(1..3), v |-> RV(0 - 4 .. 4, 3), U |-> RU(3), ud |-> 1] ELSE [op |-> "tget", f |-> f, i |-> R(1..3)]
RandomEvent(o, u) ==
  CASE o = "tset" -> TSet(u, R(TF(u)), RQ(0), RV(0 - 3 .. 3, 3), R({1, 1, 1, 2}))
    [] o = "tmul" -> [op |-> o, i |-> R(1..3), j |-> R(1..3), n |-> R(1..3), form |-> R({0, 0, 1})]
    [] o = "tinv" -> [op |-> o, i |-> R(1..3), n |-> R(1..3), form |-> R({0, 0, 1})]
    [] o = "toplus" -> [op |-> o, n |-> R(1..3), q |-> RQ(0), turns |-> R({0, 0, 1, M}), t |-> RV(0 - 2 .. 2, 3), d |-> R({1, 2})]
    [] o = "tplain" -> [op |-> o, i |-> R(1..3), n |-> R(1..3)]
    [] o = "tlift" -> [op |-> o, i |-> R(1..3), n |-> R(1..3), form |-> R(0..2)]
    [] o \in {"tsetU", "tsetUO"} -> [op |-> o, n |-> R(1..3), U |-> RU(6), ud |-> R({1, 2})]
    [] o = "tget" -> GetF(R({"T", "C", "q", "t", "T3x4", "S", "v3", "v4", "r3", "r4"} \cup IF u THEN {"ruv", "U", "UOplus"} ELSE {}))
    [] o = "pset" -> PSet(R(PF(u)))
    [] o = "papply" -> [op |-> o, i |-> R(1..3), j |-> R(1..3), n |-> R(1..3), form |-> R({0, 0, 1})]
    [] o = "psum" -> [op |-> o, i |-> R(1..3), j |-> R(1..3), n |-> R(1..3), g |-> R({1, M}), form |-> R({0, 0, 1})]
    [] o \in {"pnorm", "pvector"} -> [op |-> o, n |-> R(1..3), form |-> R({0, 1})]
    [] o = "pscale" -> [op |-> o, n |-> R(1..3), c |-> R({M, 2, 3, 0 - 2})]
    [] o = "ppoint" -> [op |-> o, n |-> R(1..3), root |-> R({1, 2, 3, 3, 5})]
    [] o = "poplus" -> [op |-> o, n |-> R(1..3), q |-> RQ(0), turns |-> R({0, 0, 1})]
    [] o = "plift" -> [op |-> o, i |-> R(1..3), n |-> R(1..3), form |-> R(0..2)]
    [] o = "pplain" -> [op |-> o, i |-> R(1..3), n |-> R(1..3)]
    [] o = "psetU" -> [op |-> o, n |-> R(1..3), U |-> RU(4), ud |-> R({1, 2})]
    [] o = "psetUO" -> [op |-> o, n |-> R(1..3), U |-> RU(3), ud |-> R({1, 2})]
    [] o \in {"pav", "pget"} -> [op |-> o, i |-> R(1..3)]
Common == <<"tset", "tset", "tmul", "tmul", "tmul", "tinv", "toplus", "tget", "pset", "pset", "papply", "papply", "psum", "pnorm", "pvector", "pscale", "ppoint", "poplus", "pget">>
OpsOf(u) == IF u THEN Common \o <<"tset", "tmul", "tplain", "tlift", "tsetU", "tsetUO", "tget", "pset", "pset", "papply", "psum", "psum", "plift", "pplain", "psetU", "psetUO", "pav", "pav">> ELSE Common
(* ------------------------------------------------- every small behaviour   *)
Pose == { <<<<0, 0, 1, 1>>, <<1, 0, M>>>>, <<<<1, 1, M, 1>>, <<0, 2, 0>>>>, <<<<1, 0, 0, 2>>, <<2, 1, 0>>>> }
U1 == Out(<<1, 0, 2, 0, M, 1>>, <<0, 1, 0, 0, 1, 0>>)
U2 == Out(<<0, 1, 0, 1, 0, M>>, <<1, 1, 0, 0, 0, 1>>)
SetT(n, p, f) == IF f \in {"uqtU", "umatU", "uTU"} THEN [op |-> "tset", n |-> n, f |-> f, q |-> p[1], t |-> p[2], d |-> 1, U |-> IF n = 1 THEN U1 ELSE U2, ud |-> 1, qs |-> n]
                 ELSE [op |-> "tset", n |-> n, f |-> f, q |-> p[1], t |-> p[2], d |-> 1, qs |-> n]
SetP(n, h, f) == IF f = "u4U" THEN [op |-> "pset", n |-> n, f |-> f, h |-> h, d |-> 1, U |-> IF n = 1 THEN Out(<<1, 0, M, 0>>, <<0, 1, 1, 1>>) ELSE Out(<<0, 2, 0, 1>>, <<1, 0, 1, 0>>), ud |-> 1]
                 ELSE [op |-> "pset", n |-> n, f |-> f, h |-> h, d |-> 1]
Starts(fs, gs) == { <<SetT(1, a, f), SetT(2, b, g)>> : a \in Pose, b \in Pose, f \in fs, g \in gs }
HP == { <<1, M, 2, 1>>, <<0, 2, 1, 0 - 2>>, <<1, 2, 0 - 2, 0>> }
PStarts(fs) == { <<SetT(1, a, f), SetP(1, h, g), SetP(2, k, m)>> : a \in {<<<<0, 0, 1, 1>>, <<1, 0, M>>>>, <<<<1, 0, 0, 2>>, <<1, 1, 0>>>>}, f \in IF fs = {"p4"} THEN {"qt"} ELSE {"qt", "uqtU"}, h \in HP, k \in HP, g \in fs, m \in fs }
Alphabet ==
  CASE Mode \in {"plain", "cov"} -> [op : {"tmul"}, i : 1..2, j : 1..2, n : 2..3, form : IF Mode = "cov" THEN {0, 1} ELSE {0}] \cup [op : {"tinv"}, i : 1..2, n : 2..3, form : IF Mode = "cov" THEN {0, 1} ELSE {0}]
                                    \cup [op : {"toplus"}, n : {1, 2}, q : {<<1, 0, 0, 1>>, <<0, M, 2, 2>>}, turns : {0}, t : {<<1, 0, 2>>}, d : {1}]
                                    \cup (IF Mode = "cov" THEN [op : {"tplain"}, i : {1}, n : {2}] \cup [op : {"tlift"}, i : {1, 2}, n : {2}, form : 0..2] \cup [op : {"tsetU", "tsetUO"}, n : {1, 2}, U : {U2}, ud : {2}] ELSE {})
    [] Mode \in {"points", "pcov"} -> [op : {"papply"}, i : {1}, j : 1..2, n : {1, 3}, form : {0, 1}] \cup [op : {"psum"}, i : 1..2, j : 1..2, n : {2, 3}, g : {1, M}, form : IF Mode = "pcov" THEN {0, 1} ELSE {0}] \cup [op : {"pnorm"}, n : 1..2, form : {0, 1}]
                                       \cup [op : {"pvector"}, n : {1}, form : {0}] \cup [op : {"pscale"}, n : {1, 2}, c : {M, 3}] \cup [op : {"ppoint"}, n : 1..2, root : {3}] \cup [op : {"poplus"}, n : {1}, q : {<<1, 0, 0, 1>>, <<0, M, 2, 2>>}, turns : {0}]
                                       \cup (IF Mode = "pcov" THEN [op : {"plift"}, i : {1, 2}, n : {2}, form : 0..2] \cup [op : {"psetU"}, n : {1, 2}, U : {Out(<<1, 0, 1, 1>>, <<0, 0, 2, 0>>)}, ud : {2}] ELSE {})
    [] OTHER -> {}
Ends(h) == IF Mode \in {"plain", "cov"} THEN h \o << [op |-> "tget", f |-> "T", i |-> 1], [op |-> "tget", f |-> "UOplus", i |-> 2] >> ELSE h \o << [op |-> "pget", i |-> 1], [op |-> "pget", i |-> 2] >>
RECURSIVE Run(_, _, _)
Run(s, h, n) == IF n > Len(h) THEN s ELSE Run(CHOOSE x \in Steps(s, h[n]) : TRUE, h, n + 1)
Small(s, e) == IF SafeStep(s, e) THEN { x \in Steps(s, e) : SafeS(x) } ELSE {}
Init == IF Mode \in {"random", "urandom"} THEN hist = <<>> /\ st = SInit
        ELSE \E h \in IF Mode = "plain" THEN Starts({"qt"}, {"mat"}) ELSE IF Mode = "cov" THEN Starts({"qt", "uqtU"}, {"mat", "umatU"}) ELSE IF Mode = "points" THEN PStarts({"p4"}) ELSE IF Mode = "pcov" THEN PStarts({"p4", "u4U"}) ELSE {<<>>} : hist = h /\ st = Run(SInit, h, 1)
Take(e, c) == IF c = {} THEN UNCHANGED <<hist, st>> ELSE \E m \in c : hist' = Append(hist, e) /\ st' = m
Random(u) == \E o \in {R(1..Len(OpsOf(u)))} : \E e \in {RandomEvent(OpsOf(u)[o], u)} : \E c \in {Small(st, e)} : Take(e, c)
Long == IF Mode \in {"plain", "cov"} THEN 2 ELSE 3
Next == IF Mode = "random" THEN Random(FALSE) ELSE IF Mode = "urandom" THEN Random(TRUE)
        ELSE Len(hist) < Depth + Long /\ \E e \in Alphabet : \E c \in {Small(st, e)} : c # {} /\ Take(e, c)
Bound == IF Mode \in {"random", "urandom"} THEN TLCGet("level") < Depth \/ PrintT("@H " \o ToJson(hist)) ELSE Len(hist) < Depth + Long \/ PrintT("@H " \o ToJson(Ends(hist)))
(* ------------------------------------------------------------------- laws  *)
Eq(a, b) == a.m = b.m /\ a.d = b.d
SameT(x, y) == Eq(T4(x), T4(y)) /\ x.un = y.un /\ Eq(x.U, y.U)
Mul(a, b) == MulT(a, b, 0)
Inv(a) == InvU(a, InvT(a))
Sym(u) == \A i, j \in 1..Len(u.m) : u.m[i][j] = u.m[j][i]
Psd(u) == \A i \in 1..Len(u.m) : u.m[i][i] >= 0
Laws == \A i \in 1..3 :
   /\ Sym(st.T[i].U) /\ Psd(st.T[i].U) /\ (~st.T[i].un => Eq(st.T[i].U, Zero(6)))
   /\ Sym(st.P[i].U) /\ Psd(st.P[i].U)
   /\ IF Mode \in {"plain", "cov"} THEN
        /\ Eq(T4(Mul(st.T[i], Inv(st.T[i]))), Rat(Eye(4), 1)) /\ SameT(Inv(Inv(st.T[i])), st.T[i])
        /\ Eq(RMM(BoxTimes(st.T[i]), BoxTimes(Inv(st.T[i]))), Rat(Eye(6), 1))
        /\ Eq(RMM(SMat(st.T[i].t, 1), SMat(st.T[i].t, 0 - 1)), Rat(Eye(6), 1))
        /\ (i = 1 => SameT(Mul(Mul(st.T[1], st.T[2]), st.T[1]), Mul(st.T[1], Mul(st.T[2], st.T[1]))))
        /\ (i = 1 => SameT(Inv(Mul(st.T[1], Plain(st.T[2]))), Mul(Plain(Inv(st.T[2])), Inv(st.T[1]))))
      ELSE TRUE
===============================================================================
