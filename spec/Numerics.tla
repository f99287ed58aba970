------------------------------ MODULE Numerics --------------------------------
(* sm_common numerical helpers, on numbers whose arithmetic is exact:         *)
(* a = e.a / 2^e.k, b = e.b / 2^e.k, epsilon = e.m / 2^e.j.  The relations do *)
(* not depend on a common scale of a and b (e.scale, a power of two).         *)
EXTENDS Integers, Sequences, FiniteSets
RECURSIVE Pow(_, _)
Pow(b, n) == IF n = 0 THEN 1 ELSE b * Pow(b, n - 1)
Abs(n) == IF n < 0 THEN 0 - n ELSE n
MaxOf(a, b) == IF a > b THEN a ELSE b
Big(a, b) == MaxOf(Abs(a), Abs(b))
(* |a - b| <= max(|a|, |b|) * m / 2^j                                         *)
Equal(a, b, m, j) == Abs(a - b) * Pow(2, j) <= Big(a, b) * m
Greater(a, b, m, j) == (a - b) * Pow(2, j) > Big(a, b) * m
Verdict(a, b, m, j) == [eq |-> Equal(a, b, m, j), gt |-> Greater(a, b, m, j), lt |-> Greater(b, a, m, j)]
Swap(v) == [eq |-> v.eq, gt |-> v.lt, lt |-> v.gt]
One(v) == Cardinality({ f \in {"eq", "gt", "lt"} : v[f] }) = 1
(* nearest integer of (q + nudge * tiny) / 4, halves away from zero           *)
Nearest(q, nudge) == IF q % 4 = 2 /\ nudge < 0 THEN q \div 4 ELSE (q + 2) \div 4
Sgn(n) == IF n < 0 THEN 0 - 1 ELSE IF n > 0 THEN 1 ELSE 0

Good(e) ==
  CASE e.op = "cmp" ->
         IF e.m <= 0 THEN e.r.k = "exc" /\ e.r.t = "invalid_argument"
         ELSE e.r.k = "cmp" /\ e.r.ab = Verdict(e.a, e.b, e.m, e.j) /\ e.r.ba = Verdict(e.b, e.a, e.m, e.j)
    [] e.op = "ulp" -> \* neighbours of a power of two, tolerance left to the precision of the type
         LET v == IF Abs(e.a - e.b) <= 1 THEN [eq |-> TRUE, gt |-> FALSE, lt |-> FALSE] ELSE [eq |-> FALSE, gt |-> (e.neg # (e.a > e.b)), lt |-> (e.neg # (e.a < e.b))]
         IN e.r.k = "cmp" /\ e.r.ab = v /\ e.r.ba = Swap(v)
    [] e.op = "laws" -> \* any finite numbers
         /\ e.r.k = "laws" /\ One(e.r.ab) /\ e.r.ba = Swap(e.r.ab)
         /\ (e.r.ab.lt => e.r.order = 0 - 1) /\ (e.r.ab.gt => e.r.order = 1) /\ (e.r.order = 0 => e.r.ab.eq)
         /\ e.r.aa = [eq |-> TRUE, gt |-> FALSE, lt |-> FALSE]
         /\ (e.r.ab.eq => e.r.wider.eq)          \* a larger tolerance keeps numbers equal
    [] e.op \in {"round", "rint", "lrint"} -> e.r.k = "int" /\ e.r.i = (IF e.neg THEN 0 - Nearest(e.q, e.nudge) ELSE Nearest(e.q, e.nudge))
    [] e.op = "sgn" -> e.r.k = "int" /\ e.r.i = Sgn(e.a)
    [] e.op = "roots" -> \* a (x - x1) (x - x2); here and below the unknown is scaled by 2^t, which changes nothing
         e.r.k = "roots" /\ e.r.exact /\ (e.r.x = <<e.x1, e.x2>> \/ e.r.x = <<e.x2, e.x1>>)
    [] e.op = "quad" -> \* integers a # 0, b, c: both roots solve the equation and are its roots with multiplicity
         IF e.b * e.b < 4 * e.a * e.c THEN e.r.k = "exc" /\ e.r.t = "runtime_error"
         ELSE e.r.k = "quad" /\ e.r.first /\ e.r.second /\ e.r.sum /\ e.r.product
    [] OTHER -> FALSE
===============================================================================
