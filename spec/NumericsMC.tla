------------------------------ MODULE NumericsMC ------------------------------
(* Calls of the numerical helpers on grids of exact numbers; the relations of *)
(* the specification obey the laws that users rely on.                        *)
EXTENDS Numerics, Json, TLC
CONSTANTS Mode, Depth
VARIABLES hist
R == (0 - Depth)..Depth
Ms == {1, 2, 3, 7, 8, 16, 0, 0 - 1}
Fl == {"double", "float", "ldouble"}
Bases == {0, 20, 22, 31, 40, 50, 51, 52, 53, 62}
Mant(ty) == IF ty = "float" THEN 24 ELSE 53
(* 2^b + q/4 is a number of the type; the nudge must be small there           *)
Fits(ty, b, q, nudge) ==
  /\ b > 0 => (LET u == b - (Mant(ty) - 1) IN IF u <= 0 - 2 THEN TRUE ELSE IF u > 8 THEN q = 0 ELSE q % Pow(2, u + 2) = 0)
  /\ nudge # 0 => q > 0 /\ (b = 0 \/ (ty = "double" /\ b <= 40))
RoundOk(op, ty, b) == CASE op = "rint" -> b <= 22 [] OTHER -> TRUE
Calls == CASE Mode = "cmp" -> [op : {"cmp"}, a : R, b : R, k : {0}, m : Ms, j : {3}, ty : Fl, scale : {0}]
           [] Mode = "ulp" -> [op : {"ulp"}, a : 0..6, b : 0..6, neg : BOOLEAN, ty : {"double", "float"}]
           [] Mode = "round" -> { e \in [op : {"round", "rint", "lrint"}, ty : {"double", "float"}, neg : BOOLEAN, base : Bases, q : (0..14) \cup {16, 20, 24, 28, 64, 1024}, nudge : {0 - 1, 0, 1}] :
                                  Fits(e.ty, e.base, e.q, e.nudge) /\ RoundOk(e.op, e.ty, e.base) }
           [] Mode = "sgn" -> [op : {"sgn"}, a : {0 - 100, 0 - 1, 0, 1, 100}, k : {0, 5}, ty : {"double", "float", "int", "char", "long"}]
           [] Mode = "roots" -> [op : {"roots"}, a : {1, 0 - 1, 2, 0 - 3, 64}, x1 : (0 - Depth)..Depth, x2 : (0 - Depth)..Depth]
           [] Mode = "quad" -> [op : {"quad"}, a : {0 - 3, 0 - 1, 1, 2, 5}, b : {0 - 4000, 0 - 7, 0 - 4, 0 - 1, 0, 1, 2, 3, 6, 3001}, c : {0 - 9, 0 - 1, 0, 1, 2, 3, 4}]
Init == \E c \in Calls : hist = <<c>>
Next == FALSE /\ UNCHANGED hist
Bound == PrintT("@H " \o ToJson(hist))
E == hist[1]
Laws == CASE Mode = "cmp" /\ E.m > 0 ->
               LET v == Verdict(E.a, E.b, E.m, E.j) IN
               /\ One(v) /\ Verdict(E.b, E.a, E.m, E.j) = Swap(v) /\ (v.lt => E.a < E.b) /\ (E.a = E.b => v.eq)
               /\ Verdict(0 - E.a, 0 - E.b, E.m, E.j) = Swap(v)
               /\ Verdict(2 * E.a, 2 * E.b, E.m, E.j) = v
          [] Mode = "round" -> LET n == Nearest(E.q, E.nudge) IN 4 * n - E.q \in (0 - 2)..2
          [] OTHER -> TRUE
===============================================================================
