------------------------------- MODULE KinDerivs -------------------------------
(* Derivatives of the rotation parameterisations of sm_kinematics, exactly.   *)
(* A parameterisation p -> q(p), a unit quaternion, has the angular velocity   *)
(* S(p) pdot, S_i = 2 vec(dq/dp_i q^-1); its Jacobian follows by the product   *)
(* rule.  Angles are [s, c, t]: 2 atan2(s, c) + 2 pi t; rotation vectors are    *)
(* theta v / |v| for an integer quaternion <<v, w>>, theta = 2 atan2(|v|, w) +  *)
(* 2 pi turns; N = N(q).  Results are recorded as exact integers after scaling. *)
EXTENDS Exact
M1 == 0 - 1
V3(q) == <<q[1], q[2], q[3]>>
Pure(v) == <<v[1], v[2], v[3], 0>>
VAdd(a, b) == [i \in 1..Len(a) |-> a[i] + b[i]]
MAdd(a, b) == [i \in 1..Len(a) |-> VAdd(a[i], b[i])]
CrossV(a, b) == MV(Cross(a), b)
(* ------------------------------------------------------------ Euler angles  *)
(* the factors of the quaternion: axis, sign and which angle; D differentiates *)
Factors(f) == CASE f = "zyx" -> <<3, 2, 1>> [] f = "ypr" -> <<3, 2, 1>> [] f = "zxy" -> <<3, 1, 2>>
Sign(f) == IF f = "zyx" THEN 1 ELSE M1
(* factor i, differentiated n times: halved n times (n = 0, 1, 2)              *)
Factor(f, a, i, n) == LET s == IF n = 0 THEN a[i].s ELSE IF n = 1 THEN a[i].c ELSE 0 - a[i].s
                          c == IF n = 0 THEN a[i].c ELSE IF n = 1 THEN 0 - a[i].s ELSE 0 - a[i].c
                      IN [k \in 1..4 |-> IF k = 4 THEN c ELSE IF k = Factors(f)[i] THEN Sign(f) * s ELSE 0]
(* the quaternion, its factors i and j differentiated (0: not)                 *)
Q3(f, a, i, j) == LET F(k) == Factor(f, a, k, (IF k = i THEN 1 ELSE 0) + (IF k = j THEN 1 ELSE 0)) IN QProd(F(1), QProd(F(2), F(3)))
Prod3(a) == An(a[1]) * An(a[2]) * An(a[3])
(* the column i of S times Prod3, and twice its derivative by angle j          *)
SCol(f, a, i) == V3(QProd(Q3(f, a, i, 0), QInv(Q3(f, a, 0, 0))))
DCol(f, a, i, j) == V3(VAdd(QProd(Q3(f, a, i, j), QInv(Q3(f, a, 0, 0))), QProd(Q3(f, a, i, 0), QInv(Q3(f, a, j, 0)))))
ES(f, a) == T([i \in 1..3 |-> SCol(f, a, i)])
EJ(f, a, w) == T([j \in 1..3 |-> VAdd(Scale(w[1], DCol(f, a, 1, j)), VAdd(Scale(w[2], DCol(f, a, 2, j)), Scale(w[3], DCol(f, a, 3, j))))])
(* -------------------------------------------------------- Euler-Rodriguez   *)
(* p = v / w: S times N, the Jacobian's left half times N^2                    *)
Unit(j) == [k \in 1..4 |-> IF k = j THEN 1 ELSE 0]
RS(q) == T([j \in 1..3 |-> Scale(2 * q[4], V3(QProd(Unit(j), QInv(q))))])
RJ(q, u) == T([j \in 1..3 |-> VAdd(Scale(2 * q[4] * q[4] * N(q), V3(QProd(Pure(u), Neg(Unit(j))))), Scale(0 - 4 * q[4] * q[4] * q[j], V3(QProd(Pure(u), QInv(q)))))])
(* -------------------------------------------------------- rotation vectors  *)
X(q) == Cross(V3(q))
Y(q) == MAdd(MScale(2 * q[4], X(q)), MScale(M1 * 2, MM(X(q), X(q))))      \* N theta/|v| S X(v)
Q4(m, q) == T([j \in 1..Len(m[1]) |-> QProd(Pure(T(m)[j]), q)])           \* the columns as pure quaternions, times q
VC(q) == Col(V3(q))
(* the derivative of S(p) d by p along v and along the columns of X(v): theta^2 *)
(* times it is A + theta B; A times N, B times N |v|                            *)
N3(q) == q[1] * q[1] + q[2] * q[2] + q[3] * q[3]
Mixed(q, x, d) == VAdd(CrossV(x, CrossV(V3(q), d)), CrossV(V3(q), CrossV(x, d)))
Dirs(q) == <<V3(q)>> \o T(X(q))
JA(q, d) == T([k \in 1..4 |-> IF k = 1 THEN VAdd(Scale(2 * N3(q), CrossV(V3(q), d)), Scale(2 * q[4], CrossV(V3(q), CrossV(V3(q), d))))
                              ELSE VAdd(Scale(0 - 2 * N3(q), CrossV(Dirs(q)[k], d)), Scale(0 - 2 * q[4], Mixed(q, Dirs(q)[k], d)))])
JB(q, d) == T([k \in 1..4 |-> IF k = 1 THEN VAdd(Scale(0 - 2 * N3(q) * q[4], CrossV(V3(q), d)), Scale(N3(q) - q[4] * q[4], CrossV(V3(q), CrossV(V3(q), d))))
                              ELSE Scale(N(q), Mixed(q, Dirs(q)[k], d))])
(* ------------------------------------------------------------------- calls  *)
Is(e, a, b) == e.r.k = "two" /\ e.r.a = a /\ e.r.b = b
IsM(e, m) == e.r.k = "mat" /\ e.r.d = m
I3 == Eye(3)
Odd(n) == n % 2 = 1
Good(e) ==
  CASE e.op = "euler" -> IF e.f = "rod" THEN (CASE e.g = "S" -> IsM(e, RS(e.q)) [] e.g = "J" -> IsM(e, RJ(e.q, e.w)) [] e.g = "omega" -> IsM(e, Col(MV(RS(e.q), e.w))))
                         ELSE (CASE e.g = "S" -> IsM(e, ES(e.f, e.a)) [] e.g = "J" -> IsM(e, EJ(e.f, e.a, e.w)) [] e.g = "omega" -> IsM(e, Col(MV(ES(e.f, e.a), e.w))))
    \* S v, and N theta/|v| S X
    [] e.op = "S" -> Is(e, VC(e.q), Y(e.q))
    \* S^-1 v, and |v|/theta S^-1 Y
    [] e.op = "Inv" -> Is(e, VC(e.q), MScale(N(e.q), X(e.q)))
    \* d exp: 2 sqrt(N) J v, and 2 sqrt(N) N theta/|v| J X; every turn changes the sign
    [] e.op = "exp" -> LET g == IF Odd(e.t) THEN Neg(e.q) ELSE e.q IN Is(e, Q4(VC(e.q), g), Q4(Y(e.q), g))
    \* d log: J q (v, 0) / sqrt(N), and |v|/theta/sqrt(N) J of the columns of Y times q; J q (log1: of 2 acos(w) v / |v|, quaternions of other lengths are not its domain)
    [] e.op = "log" -> Is(e, Col(Scale(2, V3(e.q))), MScale(2 * N(e.q), X(e.q))) /\ (e.f # "log1" => e.r.q = <<0, 0, 0>>)
    \* angular velocity of rotation vectors: the Jacobian
    [] e.op = "J" -> Is(e, JA(e.q, e.d), JB(e.q, e.d))
    \* at the zero vector, and in the limit (eps = 2^-k) first and second order; the scale of the result in brackets
    [] e.op = "zero" -> (CASE e.f \in {"rv", "rvC", "rvJ", "exp", "expf", "rvInv", "log", "logf"} -> IsM(e, I3)
                          [] e.f \in {"qexp", "qexpf"} -> IsM(e, I3 \o << <<0, 0, 0>> >>)                                     \* [2]
                          [] e.f \in {"qlog", "qlogf"} -> IsM(e, << <<2, 0, 0, 0>>, <<0, 2, 0, 0>>, <<0, 0, 2, 0>> >>)
                          [] e.f = "J" -> IsM(e, Cross(e.d)))                                                                 \* [2]
    [] e.op = "small" -> (CASE e.f \in {"rv", "rvC", "rvJ", "exp", "expf"} -> Is(e, Cross(Neg(e.v)), MM(Cross(e.v), Cross(e.v)))   \* odd part [2/eps], even part - I [6/eps^2]
                           [] e.f \in {"rvInv", "log", "logf"} -> Is(e, Cross(e.v), MM(Cross(e.v), Cross(e.v)))                   \* even part - I [12/eps^2]
                           [] e.f = "J" -> Is(e, Cross(e.d), T([j \in 1..3 |-> Mixed(e.v, V3(Unit(j)), e.d)])))                   \* even part [2], odd part [6/eps]
    [] OTHER -> FALSE
===============================================================================
