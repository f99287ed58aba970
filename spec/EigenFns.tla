------------------------------- MODULE EigenFns -------------------------------
(* The numerical helpers of sm_eigen on exact numbers: square roots of        *)
(* matrices, Jacobians by differences, the check for finite entries, and the  *)
(* comparisons of matrices used by tests.  Good(e) says whether the recorded  *)
(* result e.r of a call e is right.  Matrices are sequences of rows.          *)
EXTENDS Integers, Sequences, FiniteSets
Abs(x) == IF x < 0 THEN 0 - x ELSE x
Max(a, b) == IF a < b THEN b ELSE a
RECURSIVE SumTo(_, _)
SumTo(f, n) == IF n = 0 THEN 0 ELSE f[n] + SumTo(f, n - 1)
Sum(f) == SumTo(f, Len(f))
RECURSIVE Pow(_, _)
Pow(b, n) == IF n = 0 THEN 1 ELSE b * Pow(b, n - 1)

(* ------- A = G G' is positive semidefinite; the root S of A obeys S S' = A *)
Gram(g, n, k) == [i \in 1..n |-> [j \in 1..n |-> Sum([l \in 1..k |-> g[i][l] * g[j][l]])]]
SqrtGood(e) == e.r.k = "mat" /\ e.r.same /\ e.r.d = Gram(e.g, e.n, e.w)

(* ------- f_i(x) = x' Q_i x + B_i x + C_i, moved by the columns of D         *)
(* its derivative along column j of D; exact for every step size              *)
Grad(e, i, l) == Sum([a \in 1..e.n |-> (e.q[i][a][l] + e.q[i][l][a]) * e.x[a]]) + e.b[i][l]
Jac(e) == [i \in 1..e.m |-> [j \in 1..e.n |-> Sum([l \in 1..e.n |-> Grad(e, i, l) * e.dd[l][j]])]]
DiffGood(e) == e.r.k = "mat" /\ e.r.rows = e.m /\ e.r.cols = e.n /\ e.r.d = Jac(e)

(* ------- entries: 0 finite, 1 not a number, 2 and 3 infinite                *)
Bad(e) == { p \in (1..e.rr) \X (1..e.c) : e.v[p[1]][p[2]] # 0 }
First(S) == CHOOSE p \in S : \A o \in S : p[1] < o[1] \/ (p[1] = o[1] /\ p[2] <= o[2])
FiniteGood(e) ==
  IF e.on /\ Bad(e) # {} THEN e.r.k = "exc" /\ e.r.t = e.exc /\ e.r.row = First(Bad(e))[1] - 1 /\ e.r.col = First(Bad(e))[2] - 1 /\ e.r.msg
  ELSE e.r.k = "ok"

(* ------- numbers for comparisons: [s, q, k]: q / 10^k, or inf, ninf, nan    *)
Special(v) == v.s # "num"
(* the smaller of the two scales; numbers further apart than 10^5 differ      *)
Sc(v, w) == LET k == Max(v.k, w.k) IN [a |-> v.q * Pow(10, k - v.k), b |-> w.q * Pow(10, k - w.k), k |-> k]
Tiny(v, lim) == v.q = 0 \/ v.k >= lim   \* |v| <= 99 * 10^-k
(* relative difference in percent against the tolerance p / 8 %: 800 |a - b| ? p max *)
Cmp(x) == LET d == Abs(x.a - x.b) m == Max(Abs(x.a), Abs(x.b)) IN [l |-> 800 * d, m |-> m]
(* the set of answers that are right *)
Rel(v, w, p) ==
  IF v.s = "nan" \/ w.s = "nan" THEN {FALSE}
  ELSE IF Special(v) \/ Special(w) THEN {v.s = w.s /\ Special(v)}
  ELSE IF v.q = 0 /\ w.q = 0 THEN {TRUE}
  ELSE IF Tiny(v, 17) /\ Tiny(w, 17) THEN {TRUE}
  ELSE IF v.q = 0 \/ w.q = 0 THEN {IF v.q = 0 THEN Tiny(w, 8) ELSE Tiny(v, 8)}
  ELSE IF Abs(v.k - w.k) > 4 THEN {FALSE}
  ELSE LET x == Cmp(Sc(v, w)) IN IF x.l = p * x.m /\ x.l # 0 THEN BOOLEAN ELSE {x.l <= p * x.m}
RelGood(e) ==
  /\ e.r.k = "rel"
  /\ e.r.ab \in Rel(e.a, e.b, e.p)
  /\ e.r.ba \in Rel(e.b, e.a, e.p)
  /\ (~e.r.ab /\ ~Special(e.a) /\ ~Special(e.b) /\ Abs(e.a.k - e.b.k) <= 4) =>
       (* the error reported, in percent, rounded down *)
       LET x == Cmp(Sc(e.a, e.b)) IN e.r.err <= 200 /\ Abs((e.r.err * 8 * x.m) - x.l) <= 8 * x.m

(* ------- assertions on two matrices of such numbers                         *)
Eq1(v, w) == IF v.s = "nan" \/ w.s = "nan" THEN {FALSE} ELSE {v.s = w.s /\ v.q = w.q}
Near1(v, w, p) == IF v.s = "nan" \/ w.s = "nan" THEN {FALSE} ELSE IF Special(v) \/ Special(w) THEN (IF v.s = w.s THEN BOOLEAN ELSE {FALSE})
                  ELSE {8 * Abs(v.q - w.q) <= p}
Entry(e, v, w) == CASE e.f = "eq" -> Eq1(v, w) [] e.f \in {"near", "enear"} -> Near1(v, w, e.p) [] e.f = "mx" -> Rel(v, w, e.p) [] e.f = "fin" -> {~Special(v)}
Pos(e) == (1..e.rr) \X (1..e.c)
Shapes(e) == e.f = "fin" \/ (e.rr = e.r2 /\ e.c = e.c2)
(* the entries that must be reported and those that may be                    *)
Must(e) == { p \in Pos(e) : Entry(e, e.a[p[1]][p[2]], e.b[p[1]][p[2]]) = {FALSE} }
May(e) == { p \in Pos(e) : FALSE \in Entry(e, e.a[p[1]][p[2]], e.b[p[1]][p[2]]) }
MatGood(e) ==
  /\ e.r.k = "test"
  /\ IF ~Shapes(e) THEN e.r.fails > 0 /\ (e.f # "enear" => e.r.fatal)
     ELSE /\ Must(e) # {} => e.r.fails > 0
          /\ May(e) = {} => e.r.fails = 0
          /\ (e.f # "enear" /\ e.r.fails > 0) => e.r.fatal /\ e.r.fails = 1
          /\ (e.f = "enear") => ~e.r.fatal /\ e.r.fails \in Cardinality(Must(e))..Cardinality(May(e))
Good(e) == CASE e.op = "sqrt" -> SqrtGood(e) [] e.op = "diff" -> DiffGood(e) [] e.op = "finite" -> FiniteGood(e) [] e.op = "rel" -> RelGood(e) [] e.op = "mat" -> MatGood(e) [] OTHER -> FALSE
===============================================================================
