------------------------------ MODULE Transforms ------------------------------
(* Transformations and homogeneous points of sm_kinematics, with and without  *)
(* covariances, in exact arithmetic.  s.T[i] = [q, t, un, U]: the integer      *)
(* quaternion, the translation (rational column), whether it is uncertain, the *)
(* covariance of the small motion dt in (I - boxPlus(dt)) T.  s.P[i] =         *)
(* [h, ex, un, U, u]: a homogeneous point known exactly (ex) or up to a factor *)
(* (positive; of either sign after sums), its covariance (a 4x4 matrix known   *)
(* as such, u = "exact"; only through the covariance of the Euclidean point,   *)
(* "three"; or not at all, "none").                                            *)
EXTENDS Exact
(* ------------------------------------------------------------ the algebra   *)
Rot(q) == Rat(Mat(q), N(q))
RotT(q, v) == RMM(Rot(q), v)                                     \* v a rational column
TransM(q, t, n, d) == Rat([i \in 1..4 |-> [j \in 1..4 |-> IF i = 4 THEN (IF j = 4 THEN n * d ELSE 0) ELSE IF j = 4 THEN t[i][1] * n ELSE Mat(q)[i][j] * d]], n * d)
T4(x) == TransM(x.q, x.t.m, N(x.q), x.t.d)
TCross(t, m) == MM(Cross(<<t[1][1], t[2][1], t[3][1]>>), m)
BoxT(m, tm, n, d) == Rat([i \in 1..6 |-> [j \in 1..6 |-> IF i <= 3 /\ j <= 3 THEN m[i][j] * d ELSE IF i > 3 /\ j > 3 THEN m[i - 3][j - 3] * d
                                                       ELSE IF i <= 3 THEN 0 - tm[i][j - 3] ELSE 0]], n * d)
BoxTimesM(m, t, n, d) == BoxT(m, TCross(t, m), n, d)
BoxTimes(x) == BoxTimesM(Mat(x.q), x.t.m, N(x.q), x.t.d)
BoxMinusV(v) == << <<v[4], 0, 0, 0, 0 - v[3], v[2]>>, <<0, v[4], 0, v[3], 0, 0 - v[1]>>, <<0, 0, v[4], 0 - v[2], v[1], 0>>, <<0, 0, 0, 0, 0, 0>> >>
BoxMinus(h) == [m |-> BoxMinusV(<<h.m[1][1], h.m[2][1], h.m[3][1], h.m[4][1]>>), d |-> h.d]
SMat(t, g) == LET c == Cross(<<t.m[1][1], t.m[2][1], t.m[3][1]>>) IN   \* S(t), g = 1; its inverse, g = -1
  [m |-> [i \in 1..6 |-> [j \in 1..6 |-> IF i = j THEN t.d ELSE IF i <= 3 /\ j > 3 THEN 0 - g * c[i][j - 3] ELSE 0]], d |-> t.d]
Zero(n) == [m |-> ZeroM(n, n), d |-> 1]
Diag6(a, b, d) == Rat([i \in 1..6 |-> [j \in 1..6 |-> IF i # j THEN 0 ELSE IF i <= 3 THEN a ELSE b]], d)

(* ---------------------------------------------------------------- registers *)
Origin == Rat(<< <<0>>, <<0>>, <<0>> >>, 1)
IdT(un) == [q |-> <<0, 0, 0, 1>>, t |-> Origin, un |-> un, U |-> Zero(6)]
ZeroP(un) == [h |-> [m |-> << <<0>>, <<0>>, <<0>>, <<1>> >>, d |-> 1], ex |-> TRUE, un |-> un, U |-> Zero(4), u |-> "exact"]
SInit == [T |-> [i \in 1..3 |-> IdT(FALSE)], P |-> [i \in 1..3 |-> ZeroP(FALSE)]]
NewT(x, e) ==
  LET q == Prim(e.q)  t == Rat(Col(e.t), e.d) IN
  CASE e.f \in {"qt", "mat"} -> [q |-> q, t |-> t, un |-> FALSE, U |-> Zero(6)]
    [] e.f = "setmat" -> [x EXCEPT !.q = q, !.t = t]
    [] e.f = "identity" -> [x EXCEPT !.q = <<0, 0, 0, 1>>, !.t = Origin]
    [] e.f = "default" -> IdT(FALSE)
    [] e.f = "udefault" -> IdT(TRUE)
    [] e.f \in {"uqt", "umat", "uT"} -> [q |-> q, t |-> t, un |-> TRUE, U |-> Zero(6)]
    [] e.f \in {"uqtU", "umatU", "uTU"} -> [q |-> q, t |-> t, un |-> TRUE, U |-> Rat(e.U, e.ud)]
    [] e.f \in {"uqtd", "umatd", "uTd"} -> [q |-> q, t |-> t, un |-> TRUE, U |-> Diag6(e.a, e.b, e.ud)]
MulT(a, b, form) ==
  [q |-> Prim(QProd(a.q, b.q)), t |-> RAdd(RotT(a.q, b.t), a.t),
   un |-> a.un \/ b.un \/ FALSE,
   U |-> IF b.un THEN (IF a.un THEN RAdd(a.U, Cong(BoxTimes(a), b.U)) ELSE Cong(BoxTimes(a), b.U)) ELSE a.U]
(* called through a reference to Transformation, a product with a Transformation is a Transformation *)
Plain(x) == [x EXCEPT !.un = FALSE, !.U = Zero(6)]
InvT(x) == [q |-> QInv(x.q), t |-> RScale(0 - 1, 1, RotT(QInv(x.q), x.t)), un |-> x.un, U |-> x.U]
InvU(x, y) == [y EXCEPT !.U = IF x.un THEN Cong(BoxTimes(y), x.U) ELSE Zero(6)]

H(p, i) == p.h.m[i][1]
Unknown(p) == IF p.un THEN [p EXCEPT !.U = Zero(4), !.u = "none"] ELSE [p EXCEPT !.u = "exact"]
(* an operation of the base class leaves the covariance matrix as it is         *)
Base(p) == IF p.ex /\ p.u = "exact" THEN p ELSE Unknown(p)
Finite(p) == H(p, 4) # 0
NewP(x, e) ==
  LET h == Rat(Col(e.h), e.d) IN
  CASE e.f \in {"p3", "p4"} -> [h |-> h, ex |-> TRUE, un |-> FALSE, U |-> Zero(4), u |-> "exact"]
    [] e.f \in {"=3", "=4", "set3", "set4", "setX", "zero"} -> [Base(x) EXCEPT !.h = IF e.f = "zero" THEN ZeroP(FALSE).h ELSE h, !.ex = TRUE]
    [] e.f = "default" -> ZeroP(FALSE)
    [] e.f = "udefault" -> ZeroP(TRUE)
    [] e.f \in {"u3", "u4", "uP"} -> [h |-> h, ex |-> TRUE, un |-> TRUE, U |-> Zero(4), u |-> "exact"]
    [] e.f = "u3U" -> [h |-> h, ex |-> TRUE, un |-> TRUE, U |-> Rat([i \in 1..4 |-> [j \in 1..4 |-> IF i < 4 /\ j < 4 THEN e.U[i][j] ELSE 0]], e.ud), u |-> "exact"]
    [] e.f \in {"u4U", "uPU"} -> [h |-> h, ex |-> TRUE, un |-> TRUE, U |-> Rat(e.U, e.ud), u |-> "exact"]
    [] e.f \in {"u4av", "uPav"} -> [h |-> h, ex |-> TRUE, un |-> TRUE, U |-> Zero(4), u |-> "exact"]
(* the covariance of the Euclidean point: J U J^T, J = [I / w, -v / w^2]        *)
KMat(p, n, m) == [m |-> [i \in 1..3 |-> [j \in 1..4 |-> n * (IF j = 4 THEN 0 - H(p, i) ELSE IF i = j THEN H(p, 4) ELSE 0)]], d |-> m]
KRed(p, g) == Rat(KMat(p, p.h.d \div g, 1).m, (H(p, 4) * H(p, 4)) \div g)
K(p) == KRed(p, Gcd(p.h.d, H(p, 4) * H(p, 4)))
U3(p) == Cong(K(p), p.U)
(* a 4x4 covariance whose Euclidean one is u at the point h                    *)
Embed(u, h) == Rat([i \in 1..4 |-> [j \in 1..4 |-> IF i < 4 /\ j < 4 THEN h.m[4][1] * h.m[4][1] * u.m[i][j] ELSE 0]], u.d * h.d * h.d)
UOf(p) == IF p.un THEN U3(p) ELSE Zero(3)
Sum(a, b, g) ==   \* a + g b
  LET h == Rat([i \in 1..4 |-> IF i = 4 THEN <<H(a, 4) * H(b, 4)>> ELSE <<H(a, i) * H(b, 4) + g * H(b, i) * H(a, 4)>>], a.h.d * b.h.d)
      un == a.un \/ b.un
      known == un /\ Finite(a) /\ Finite(b) /\ a.u # "none" /\ b.u # "none"
  IN [h |-> h, ex |-> FALSE, un |-> un, U |-> IF known THEN Embed(RAdd(UOf(a), UOf(b)), h) ELSE Zero(4), u |-> IF known THEN "three" ELSE IF un THEN "none" ELSE "exact"]
PlainP(p) == [p EXCEPT !.un = FALSE, !.U = Zero(4), !.u = "exact"]
Moved(x, p) == [p EXCEPT !.h = RMM(T4(x), p.h), !.un = x.un \/ p.un]
ApplyU(x, p, y) == [y EXCEPT !.U = IF p.u = "none" THEN Zero(4) ELSE
    IF x.un THEN (IF p.un THEN RAdd(Cong(BoxMinus(y.h), x.U), Cong(T4(x), p.U)) ELSE Cong(BoxMinus(y.h), x.U)) ELSE Cong(T4(x), p.U),
  !.u = IF p.u = "none" THEN "none" ELSE IF ~y.un \/ (p.ex /\ p.u = "exact") THEN "exact" ELSE "three"]
Apply(x, p) == ApplyU(x, p, Moved(x, p))
Squares(v) == v[1] * v[1] + v[2] * v[2] + v[3] * v[3] + v[4] * v[4]
H4(p) == <<H(p, 1), H(p, 2), H(p, 3), H(p, 4)>>
Unit(p) == Squares(H4(p)) = p.h.d * p.h.d
(* half the first three columns of OPlus(h) / h.d                              *)
InvS(p) == Rat([i \in 1..4 |-> [j \in 1..3 |-> OPlus(H4(p))[i][j]]], 2 * p.h.d)
SInv(p) == Rat([j \in 1..3 |-> [i \in 1..4 |-> 2 * OPlus(H4(p))[i][j]]], p.h.d)

(* -------------------------------------------------------------- transitions *)
Set(s, f, i, x) == IF f = "T" THEN [s EXCEPT !.T[i] = x] ELSE [s EXCEPT !.P[i] = x]
Steps(s, e) ==
  CASE e.op = "tset" -> {Set(s, "T", e.n, NewT(s.T[e.n], e))}
    [] e.op = "tmul" -> {Set(s, "T", e.n, IF e.form = 1 /\ ~s.T[e.j].un THEN Plain(MulT(s.T[e.i], s.T[e.j], 0)) ELSE MulT(s.T[e.i], s.T[e.j], 0))}
    [] e.op = "tinv" -> {Set(s, "T", e.n, IF e.form = 1 THEN Plain(InvT(s.T[e.i])) ELSE InvU(s.T[e.i], InvT(s.T[e.i])))}
    [] e.op = "toplus" -> {Set(s, "T", e.n, [s.T[e.n] EXCEPT !.q = Prim(QProd(e.q, s.T[e.n].q)), !.t = RAdd(s.T[e.n].t, Rat(Col(e.t), e.d))])}
    [] e.op = "tplain" -> {Set(s, "T", e.n, Plain(s.T[e.i]))}
    [] e.op = "tlift" -> {Set(s, "T", e.n, [s.T[e.i] EXCEPT !.un = TRUE, !.U = IF e.form = 2 /\ s.T[e.i].un THEN s.T[e.i].U ELSE Zero(6)])}
    [] e.op = "tsetU" -> IF s.T[e.n].un THEN {Set(s, "T", e.n, [s.T[e.n] EXCEPT !.U = Rat(e.U, e.ud)])} ELSE {}
    [] e.op = "tsetUO" -> IF s.T[e.n].un THEN {Set(s, "T", e.n, [s.T[e.n] EXCEPT !.U = Cong(SMat(s.T[e.n].t, 1), Rat(e.U, e.ud))])} ELSE {}
    [] e.op = "pset" -> IF e.f \in {"u4av", "uPav"} THEN { Set(s, "P", e.n, [p EXCEPT !.U = Cong(InvS(p), Rat(e.U, e.ud))]) : p \in { x \in {NewP(s.P[e.n], e)} : Unit(x) } }
                        ELSE {Set(s, "P", e.n, NewP(s.P[e.n], e))}
    [] e.op = "papply" -> {Set(s, "P", e.n, Apply(IF e.form = 1 /\ ~s.P[e.j].un THEN Plain(s.T[e.i]) ELSE s.T[e.i], s.P[e.j]))}
    [] e.op = "psum" -> IF Finite(s.P[e.i]) \/ Finite(s.P[e.j]) THEN {Set(s, "P", e.n, Sum(IF e.form = 1 /\ ~s.P[e.j].un THEN PlainP(s.P[e.i]) ELSE s.P[e.i], s.P[e.j], e.g))} ELSE {}
    [] e.op = "pnorm" -> {Set(s, "P", e.n, [s.P[e.n] EXCEPT !.ex = FALSE, !.u = IF ~s.P[e.n].un THEN s.P[e.n].u ELSE IF s.P[e.n].u = "none" \/ ~Finite(s.P[e.n]) THEN "none" ELSE "three"])}
    [] e.op = "pscale" -> {Set(s, "P", e.n, [Base(s.P[e.n]) EXCEPT !.h = Rat([i \in 1..4 |-> IF i = 4 THEN <<H(s.P[e.n], 4)>> ELSE <<e.c * H(s.P[e.n], i)>>], s.P[e.n].h.d)])}
    [] e.op = "pvector" -> {Set(s, "P", e.n, [Base(s.P[e.n]) EXCEPT !.h = Rat([i \in 1..4 |-> IF i = 4 THEN <<0>> ELSE <<H(s.P[e.n], i)>>], s.P[e.n].h.d)])}
    \* the point at distance one in the direction; root: the length of the integer direction
    [] e.op = "ppoint" -> IF Finite(s.P[e.n]) \/ Squares(H4(s.P[e.n])) # e.root * e.root \/ ~s.P[e.n].ex THEN {}
                          ELSE {Set(s, "P", e.n, Unknown([s.P[e.n] EXCEPT !.h = Rat([i \in 1..4 |-> IF i = 4 THEN <<e.root>> ELSE <<H(s.P[e.n], i)>>], e.root)]))}
    \* rounding decides whether a finite point that goes to infinity gets there
    [] e.op = "poplus" -> IF QProd(e.q, H4(s.P[e.n]))[4] = 0 THEN {} ELSE {Set(s, "P", e.n, [Unknown(s.P[e.n]) EXCEPT !.h = Rat(Col(QProd(e.q, H4(s.P[e.n]))), s.P[e.n].h.d), !.ex = FALSE])}
    [] e.op = "plift" -> {Set(s, "P", e.n, IF e.form = 2 /\ s.P[e.i].un THEN s.P[e.i] ELSE [s.P[e.i] EXCEPT !.un = TRUE, !.U = Zero(4), !.u = "exact"])}
    [] e.op = "pplain" -> {Set(s, "P", e.n, PlainP(s.P[e.i]))}
    [] e.op = "psetU" -> IF s.P[e.n].un THEN {Set(s, "P", e.n, [s.P[e.n] EXCEPT !.U = Rat(e.U, e.ud), !.u = IF s.P[e.n].ex THEN "exact" ELSE "none"])} ELSE {}
    [] e.op = "psetUO" -> IF ~s.P[e.n].un \/ ~s.P[e.n].ex THEN {} ELSE IF Unit(s.P[e.n]) THEN {Set(s, "P", e.n, [s.P[e.n] EXCEPT !.U = Cong(InvS(s.P[e.n]), Rat(e.U, e.ud)), !.u = "exact"])} ELSE {s}
    [] OTHER -> {s}

(* ------------------------------------------------------------ what is shown *)
Flip(h, g) == [i \in 1..Len(h) |-> <<g * h[i][1]>>]
Sign(x) == IF x < 0 THEN 0 - 1 ELSE 1
ShowT(r, x) == r.k = "T" /\ r.un = x.un /\ RIs(r.T, T4(x)) /\ (x.un => RIs(r.U, x.U))
ShowP(r, p) ==
  /\ r.k = "P" /\ r.un = p.un /\ r.inf = ~Finite(p)
  /\ (p.ex => RIs(r.h, p.h))
  /\ IF Finite(p) THEN AllNum(r.e3, Flip(SubSeq(p.h.m, 1, 3), Sign(H(p, 4))), Abs(H(p, 4)))
     ELSE \E g \in {1, 0 - 1} : AllNum(r.ray, Flip(SubSeq(p.h.m, 1, 3), g), Max(p.h.m))
  /\ (p.un /\ p.ex /\ p.u = "exact" => RIs(r.U4, p.U))
  /\ (p.un /\ p.u # "none" /\ Finite(p) => RIs(r.U3, U3(p)))
Mat1(r, a) == r.k = "mat" /\ RIs(r.d, a)
ShowGet(e, x) ==
  CASE e.f = "T" -> Mat1(e.r, T4(x))
    [] e.f \in {"C", "q"} -> Mat1(e.r, Rot(x.q))
    [] e.f = "t" -> Mat1(e.r, x.t)
    [] e.f = "T3x4" -> Mat1(e.r, RMM([m |-> [i \in 1..3 |-> Eye(4)[i]], d |-> 1], T4(x)))
    [] e.f = "S" -> Mat1(e.r, SMat(x.t, 1))
    [] e.f = "v3" -> Mat1(e.r, RAdd(RotT(x.q, Rat(Col(e.v), 1)), x.t))
    [] e.f = "v4" -> Mat1(e.r, RMM(T4(x), Rat(Col(e.v), 1)))
    [] e.f = "r3" -> Mat1(e.r, RotT(x.q, Rat(Col(e.v), 1)))
    [] e.f = "r4" -> Mat1(e.r, RMM(T4([x EXCEPT !.t = Origin]), Rat(Col(e.v), 1)))
    [] e.f = "ruv" -> e.r.k = "uv" /\ RIs(e.r.v, RotT(x.q, Rat(Col(e.v), 1))) /\ RIs(e.r.U, Cong(Rot(x.q), Rat(e.U, e.ud)))
    [] e.f = "U" -> x.un => Mat1(e.r, x.U)
    [] e.f = "UOplus" -> x.un => Mat1(e.r, Cong(SMat(x.t, 0 - 1), x.U))
ShowAv(e, p) == p.un /\ p.ex => IF Unit(p) THEN (p.u = "exact" => Mat1(e.r, Cong(SInv(p), p.U))) ELSE e.r.k = "exc"
Show(s, x, e) ==
  CASE e.op \in {"tset", "tmul", "tinv", "toplus", "tplain", "tlift", "tsetU", "tsetUO"} -> ShowT(e.r, x.T[e.n])
    [] e.op = "psetUO" /\ ~Unit(s.P[e.n]) -> e.r.k = "exc"
    [] e.op \in {"pset", "papply", "psum", "pnorm", "pscale", "pvector", "ppoint", "poplus", "plift", "pplain", "psetU", "psetUO"} -> ShowP(e.r, x.P[e.n])
    [] e.op = "pget" -> ShowP(e.r, x.P[e.i])
    [] e.op = "pav" -> ShowAv(e, x.P[e.i])
    [] e.op = "tget" -> ShowGet(e, x.T[e.i])
    [] OTHER -> FALSE
SNext(s, e) == { x \in Steps(s, e) : Show(s, x, e) }

(* ------------------------------- bounds that keep the integers small enough *)
SafeT(x) == /\ N(x.q) <= 40 /\ x.t.d <= 30 /\ Max(x.t.m) <= 40 * x.t.d /\ Max(x.t.m) <= 400
            /\ N(x.q) * x.t.d <= 120
            /\ (x.un => /\ LET b == BoxTimes(x) IN Max(b.m) <= 60 /\ b.d <= 40
                        /\ Max(x.U.m) <= 200 /\ x.U.d <= 40 /\ Max(x.t.m) <= 60)
SafeP(p) == /\ Max(p.h.m) <= 40 /\ p.h.d <= 40 /\ Max(p.h.m) > 0
            /\ (p.un => Max(p.h.m) <= 20 /\ p.h.d <= 10 /\ Max(p.U.m) <= 200 /\ p.U.d <= 40 /\ (Finite(p) => LET u == U3(p) IN u.d <= 300 /\ Max(u.m) <= 100000))
(* steps with operands that are safe but for the covariance of the other      *)
SafeStep(s, e) ==
  CASE e.op = "tmul" /\ s.T[e.j].un -> LET b == BoxTimes(s.T[e.i]) IN Max(b.m) <= 60 /\ b.d <= 40
    [] e.op = "papply" -> (s.T[e.i].un \/ s.P[e.j].un => LET m == T4(s.T[e.i]) IN Max(m.m) <= 60 /\ m.d <= 40 /\ LET h == RMM(m, s.P[e.j].h) IN Max(h.m) <= 60 /\ h.d <= 40)
    [] e.op = "psum" -> LET ok(p) == Max(p.h.m) <= 20 /\ p.h.d <= 10 IN ok(s.P[e.i]) /\ ok(s.P[e.j]) /\ LET h == Sum(Unknown([s.P[e.i] EXCEPT !.un = FALSE]), Unknown([s.P[e.j] EXCEPT !.un = FALSE]), e.g).h IN Max(h.m) <= 20 /\ h.d <= 10
    [] e.op \in {"poplus"} -> MaxV(e.q, 4) <= 5
    [] e.op = "tsetUO" -> Max(s.T[e.n].t.m) <= 40
    [] e.op = "tget" /\ e.f = "UOplus" -> Max(s.T[e.i].t.m) <= 40
    [] OTHER -> TRUE
SafeS(x) == \A i \in 1..3 : SafeT(x.T[i]) /\ SafeP(x.P[i])
===============================================================================
