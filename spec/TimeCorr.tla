------------------------------- MODULE TimeCorr -------------------------------
(* sm::timing::TimestampCorrector<T>: one-way clock synchronisation.          *)
(* Times are small integers; the driver maps them affinely to real times      *)
(* (base + unit * time) of type double or int64.  Values that are rational    *)
(* are reported by the code multiplied by 1024 and rounded.                   *)
(*                                                                            *)
(* State: cfg  what "init" gave: ti = times are integers of unit 1,           *)
(*             tol = tolerance of reported values in 1/1024                   *)
(*        h    lower convex hull: sequence of observations <<remote, local>>  *)
(*        pon  a pending corrector exists;  p  its hull                       *)
EXTENDS Integers, Sequences, FiniteSets

InitState == [cfg |-> [ti |-> FALSE, tol |-> 2], h |-> <<>>, pon |-> FALSE, p |-> <<>>]

(* c is on or above the directed line a -> b *)
Above(a, b, c) == (b[1] - a[1]) * (c[2] - a[2]) - (b[2] - a[2]) * (c[1] - a[1]) >= 0

RECURSIVE PopFor(_, _)
PopFor(h, q) == IF Len(h) >= 2 /\ Above(h[Len(h) - 1], q, h[Len(h)])
                THEN PopFor(SubSeq(h, 1, Len(h) - 1), q) ELSE h
Extends(h, q) == h = <<>> \/ q[1] > h[Len(h)][1]
Push(h, q) == LET keep == Len(h) < 2 \/ Above(h[Len(h) - 1], h[Len(h)], q)
              IN Append(IF keep THEN h ELSE PopFor(h, q), q)

(* the edge of the hull that spans the middle of the remote time span *)
Before(cfg, x, m2) == IF cfg.ti THEN x < m2 \div 2 ELSE 2 * x < m2
Edge(cfg, h) == IF Len(h) < 3 THEN 1
                ELSE LET m2 == h[1][1] + h[Len(h)][1]
                     IN Cardinality({ i \in 1..Len(h) : Before(cfg, h[i][1], m2) })

(* value of the line through edge i at x, as a fraction num / den *)
Num(h, i, x) == h[i][2] * (h[i + 1][1] - h[i][1]) + (h[i + 1][2] - h[i][2]) * (x - h[i][1])
Den(h, i) == h[i + 1][1] - h[i][1]

Span(h) == IF Len(h) > 2 THEN h[Len(h)][2] - h[1][2] ELSE 0
HalfExceeded(cfg, s, per) == IF cfg.ti THEN s > per \div 2 ELSE 2 * s > per

Abs(x) == IF x < 0 THEN -x ELSE x
Close(cfg, v, num, den) == Abs(v * den - 1024 * num) <= cfg.tol * den

(* what the code may answer: a predicate on the recorded result r *)
Obs(s, r) == r.n = Len(s.h) /\ r.sp = Span(s.h)
IsVal(s, r, num, den) == r.k = "val" /\ Close(s.cfg, r.v, num, den) /\ Obs(s, r)
IsExc(s, r, t) == r.k = "exc" /\ r.t = t /\ Obs(s, r)
IsOk(s, r) == r.k = "ok" /\ Obs(s, r)

(* --- the three kinds of correction --- *)
After2(s, q) == [s EXCEPT !.h = Push(@, q)]
(* value corrected for observation q with the hull already updated *)
CNum(s, q) == IF Len(s.h) < 3 THEN q[2] ELSE Num(s.h, Edge(s.cfg, s.h), q[1])
CDen(s, q) == IF Len(s.h) < 3 THEN 1 ELSE Den(s.h, Edge(s.cfg, s.h))

After3(s, q, per) ==
  LET h1 == Push(s.h, q)
      sp == Span(h1)
      on == s.pon \/ HalfExceeded(s.cfg, sp, per)
      p1 == IF on THEN Push(IF s.pon THEN s.p ELSE <<>>, q) ELSE <<>>
  IN IF sp > per
     THEN [s EXCEPT !.h = p1, !.pon = TRUE, !.p = <<>>]
     ELSE [s EXCEPT !.h = h1, !.pon = on, !.p = p1]

(* next states allowed by the event e with recorded result e.r *)
Next1(s, e) ==
  CASE e.op = "init" ->
         LET s1 == [InitState EXCEPT !.cfg = [ti |-> e.ti, tol |-> e.tol]]
         IN IF IsOk(s1, e.r) THEN {s1} ELSE {}
    [] e.op = "corr" ->
         LET q == <<e.x, e.y>> IN
         IF ~Extends(s.h, q) THEN IF IsExc(s, e.r, "backwards") THEN {s} ELSE {}
         ELSE LET s1 == After2(s, q)
              IN IF IsVal(s1, e.r, CNum(s1, q), CDen(s1, q)) THEN {s1} ELSE {}
    [] e.op = "corr3" ->
         LET q == <<e.x, e.y>> IN
         IF ~Extends(s.h, q) THEN IF IsExc(s, e.r, "backwards") THEN {s} ELSE {}
         ELSE LET s2 == After2(s, q)
                  s1 == After3(s, q, e.per)
              IN IF e.r.k = "val" /\ Close(s.cfg, e.r.v, CNum(s2, q), CDen(s2, q)) /\ Obs(s1, e.r)
                 THEN {s1} ELSE {}
    [] e.op = "reset" -> LET s1 == [s EXCEPT !.h = <<>>, !.pon = FALSE, !.p = <<>>]
                         IN IF IsOk(s1, e.r) THEN {s1} ELSE {}
    [] e.op = "get" ->
         IF Len(s.h) < 2 THEN IF IsExc(s, e.r, "notinit") THEN {s} ELSE {}
         ELSE LET i == Edge(s.cfg, s.h)
              IN IF IsVal(s, e.r, Num(s.h, i, e.x), Den(s.h, i)) THEN {s} ELSE {}
    [] e.op = "slope" ->
         IF Len(s.h) < 2 THEN IF IsExc(s, e.r, "notinit") THEN {s} ELSE {}
         ELSE LET i == Edge(s.cfg, s.h)
              IN IF e.r.k = "val" /\ Obs(s, e.r) /\ Abs(e.r.v * Den(s.h, i) - 1024 * (s.h[i + 1][2] - s.h[i][2])) <= 2 * Den(s.h, i)
                 THEN {s} ELSE {}
    [] e.op = "offset" ->
         IF Len(s.h) < 2 THEN IF IsExc(s, e.r, "notinit") THEN {s} ELSE {}
         ELSE LET i == Edge(s.cfg, s.h)
              IN IF IsVal([s EXCEPT !.cfg.tol = 2], e.r, Num(s.h, i, 0), Den(s.h, i)) THEN {s} ELSE {}
    [] OTHER -> {}

(* ------------------------------------------------- what T01 and T02 promise *)
(* for a sequence obs of observations processed since the last reset         *)
Convex(h) == \A i \in 1..(Len(h) - 2) : Above(h[i], h[i + 1], h[i + 2])
Increasing(h) == \A i \in 1..(Len(h) - 1) : h[i][1] < h[i + 1][1]
OnOrAboveHull(h, q) == \A i \in 1..(Len(h) - 1) :
  (h[i][1] <= q[1] /\ q[1] <= h[i + 1][1]) => Above(h[i], h[i + 1], q)
IsLowerHull(h, obs) ==
  /\ Convex(h) /\ Increasing(h)
  /\ { h[i] : i \in 1..Len(h) } \subseteq { obs[i] : i \in 1..Len(obs) }
  /\ obs # <<>> => h # <<>> /\ h[1] = obs[1] /\ h[Len(h)] = obs[Len(obs)]
  /\ \A i \in 1..Len(obs) : OnOrAboveHull(h, obs[i])
(* the corrected time is never after any observation's receive time, at that remote time *)
NeverLate(cfg, h, obs) ==
  Len(h) >= 3 => LET i == Edge(cfg, h) IN
                 /\ i \in 1..(Len(h) - 1)
                 /\ \A j \in 1..Len(obs) : Num(h, i, obs[j][1]) <= obs[j][2] * Den(h, i)
(* an exact affine relation is recovered exactly *)
Affine(obs) == \A i, j \in 1..Len(obs), k \in 1..Len(obs) :
  (obs[j][1] - obs[i][1]) * (obs[k][2] - obs[i][2]) = (obs[k][1] - obs[i][1]) * (obs[j][2] - obs[i][2])
RecoversAffine(cfg, h, obs) ==
  (Len(obs) >= 2 /\ Affine(obs)) => LET i == Edge(cfg, h) IN
     \A j \in 1..Len(obs) : Num(h, i, obs[j][1]) = obs[j][2] * Den(h, i)
(* the hull of a sequence of observations computed at once *)
RECURSIVE HullOf(_)
HullOf(obs) == IF obs = <<>> THEN <<>> ELSE Push(HullOf(SubSeq(obs, 1, Len(obs) - 1)), obs[Len(obs)])
===============================================================================
