-------------------------------- MODULE Timing --------------------------------
(* sm::timing::Timing (registry of tags, handles and samples) and Timer       *)
(* objects under a virtual clock.  Durations are whole microseconds.          *)
(*                                                                            *)
(* State: now, order (tags in order of registration), hd (tag -> handle or -1 *)
(* when it has not been told yet), sm (tag -> sequence of durations),         *)
(* tm (timer id -> [tag, run, t0])                                            *)
EXTENDS Integers, Sequences, FiniteSets, SequencesExt, TLC

Emp == [x \in {} |-> 0]
InitState == [now |-> 0, order |-> <<>>, hd |-> Emp, sm |-> Emp, tm |-> Emp]

Put(f, n, v) == [x \in DOMAIN f \cup {n} |-> IF x = n THEN v ELSE f[x]]
Del(f, n) == [x \in DOMAIN f \ {n} |-> f[x]]
Abs(x) == IF x < 0 THEN -x ELSE x

Reg(s, t) == IF t \in DOMAIN s.sm THEN s
             ELSE [s EXCEPT !.order = Append(@, t), !.hd = Put(@, t, -1), !.sm = Put(@, t, <<>>)]
AddS(s, t, d) == [s EXCEPT !.sm[t] = Append(@, d)]

RECURSIVE Sum(_), SumSq(_), MaxS(_), MinS(_)
Sum(q) == IF q = <<>> THEN 0 ELSE q[1] + Sum(Tail(q))
SumSq(q) == IF q = <<>> THEN 0 ELSE q[1] * q[1] + SumSq(Tail(q))
MaxS(q) == IF Len(q) = 1 THEN q[1] ELSE LET m == MaxS(Tail(q)) IN IF q[1] > m THEN q[1] ELSE m
MinS(q) == IF Len(q) = 1 THEN q[1] ELSE LET m == MinS(Tail(q)) IN IF q[1] < m THEN q[1] ELSE m
Last50(q) == IF Len(q) <= 50 THEN q ELSE SubSeq(q, Len(q) - 49, Len(q))

(* ------------------------------------------------------ statistics and text *)
StatsOK(q, r) ==
  LET n == Len(q) IN
  /\ r.k = "stats" /\ r.n = n /\ r.tot = Sum(q)
  /\ n > 0 => /\ r.mn = MinS(q) /\ r.mx = MaxS(q)
              /\ r.mean \in 0..(256 * MaxS(q) + 1) /\ r.var \in 0..(SumSq(q) + 1) \* (also keeps the numbers below small)
              /\ r.per \in 0..(256 * MaxS(q) + 1)
              /\ Abs(r.mean * n - 256 * Sum(q)) <= n
              /\ r.var <= SumSq(q) \div n + 1
              /\ Abs(r.var * n * n - (n * SumSq(q) - Sum(q) * Sum(q))) <= n * n
              /\ LET w == Last50(q) IN Abs(r.per * Len(w) - 256 * Sum(w)) <= Len(w)

Pad(n, w) == LET s == ToString(n)
                 l == IF n < 10 THEN 1 ELSE IF n < 100 THEN 2 ELSE IF n < 1000 THEN 3 ELSE IF n < 10000 THEN 4 ELSE IF n < 100000 THEN 5 ELSE 6
                 z == [i \in 0..6 |-> CASE i = 0 -> "" [] i = 1 -> "0" [] i = 2 -> "00" [] i = 3 -> "000" [] i = 4 -> "0000" [] i = 5 -> "00000" [] i = 6 -> "000000"]
             IN (IF l >= w THEN "" ELSE z[w - l]) \o s
TimeText(s, u) == Pad(s \div 3600, 2) \o ":" \o Pad((s \div 60) % 60, 2) \o ":" \o Pad(s % 60, 2) \o "." \o Pad(u, 6)
UsText(u) == TimeText(u \div 1000000, u % 1000000)

RowOK(s, row) ==
  /\ row.t \in DOMAIN s.sm
  /\ LET q == s.sm[row.t]  n == Len(q) IN
     /\ row.n = n
     /\ n > 0 => /\ {"tot", "mean", "std", "mn", "mx"} \subseteq DOMAIN row
                 /\ row.tot = UsText(Sum(q)) /\ row.mn = UsText(MinS(q)) /\ row.mx = UsText(MaxS(q))
                 /\ row.mean \in 0..(MaxS(q) + 1) /\ row.std \in 0..(MaxS(q) + 1)
                 /\ Abs(row.mean * n - Sum(q)) <= n
                 /\ LET v == n * SumSq(q) - Sum(q) * Sum(q)
                        lo == IF row.std = 0 THEN 0 ELSE row.std - 1
                    IN lo * lo <= v \div (n * n) /\ v \div (n * n) <= (row.std + 1) * (row.std + 1)

(* may a row for samples p stand before one for samples q? *)
Leq(kind, p, q) ==
  LET n == Len(p)  m == Len(q) IN
  IF kind = "none" \/ n = 0 THEN TRUE ELSE IF m = 0 THEN FALSE ELSE
  CASE kind = "total" -> Sum(p) >= Sum(q)
    [] kind = "mean"  -> Sum(p) * m >= Sum(q) * n
    [] kind = "min"   -> MinS(p) >= MinS(q)
    [] kind = "max"   -> MaxS(p) >= MaxS(q)
    [] kind = "num"   -> n >= m
    [] kind = "std"   -> (n * SumSq(p) - Sum(p) * Sum(p)) \div (n * n) + 1 >= (m * SumSq(q) - Sum(q) * Sum(q)) \div (m * m)
    [] OTHER -> TRUE

ReportOK(s, kind, r) ==
  /\ r.k = "report"
  /\ Len(r.rows) = Cardinality(DOMAIN s.sm)
  /\ { r.rows[i].t : i \in 1..Len(r.rows) } = DOMAIN s.sm
  /\ \A i \in 1..Len(r.rows) : RowOK(s, r.rows[i])
  /\ \A i \in 1..(Len(r.rows) - 1) : Leq(kind, s.sm[r.rows[i].t], s.sm[r.rows[i + 1].t])

(* ---------------------------------------------------------------- outcomes *)
ObsOK(s, r) == /\ r.ns = [i \in 1..Len(s.order) |-> Len(s.sm[s.order[i]])]
               /\ r.ts = [i \in 1..Len(s.order) |-> Sum(s.sm[s.order[i]])]
Ok(s, r) == IF r.k = "ok" /\ ObsOK(s, r) THEN {s} ELSE {}
Refused(s, r) == IF r.k = "exc" /\ r.t = "timer" /\ ObsOK(s, r) THEN {s} ELSE {}

RECURSIVE AddAll(_, _, _)
AddAll(s, t, ds) == IF ds = <<>> THEN s ELSE AddAll(AddS([s EXCEPT !.now = @ + ds[1]], t, ds[1]), t, Tail(ds))

Stopped(s, id) == LET x == s.tm[id] IN
  [AddS(s, x.tag, s.now - x.t0) EXCEPT !.tm[id] = [x EXCEPT !.run = FALSE]]

Next1(s, e) ==
  CASE e.op = "tick" -> Ok([s EXCEPT !.now = @ + e.d], e.r)
    [] e.op = "handle" ->
         LET s1 == Reg(s, e.tag)
             s2 == [s1 EXCEPT !.hd[e.tag] = e.r.i]
         IN IF /\ e.r.k = "int" /\ ObsOK(s1, e.r)
               /\ s1.hd[e.tag] \in {-1, e.r.i}                               \* the same tag: the same handle
               /\ \A t \in DOMAIN s1.hd \ {e.tag} : s1.hd[t] # e.r.i         \* another tag: another handle
            THEN {s2} ELSE {}
    [] e.op = "new" ->
         IF e.bad THEN Refused(s, e.r)
         ELSE LET s1 == Reg(s, e.tag)
              IN Ok([s1 EXCEPT !.tm = Put(@, e.id, [tag |-> e.tag, run |-> ~e.stopped, t0 |-> s.now])], e.r)
    [] e.op = "start" -> IF s.tm[e.id].run THEN Refused(s, e.r)
                         ELSE Ok([s EXCEPT !.tm[e.id].run = TRUE, !.tm[e.id].t0 = s.now], e.r)
    [] e.op = "stop" -> IF ~s.tm[e.id].run THEN Refused(s, e.r) ELSE Ok(Stopped(s, e.id), e.r)
    [] e.op = "isTiming" -> IF e.r.k = "bool" /\ e.r.b = s.tm[e.id].run /\ ObsOK(s, e.r) THEN {s} ELSE {}
    [] e.op = "destroy" -> LET s1 == IF s.tm[e.id].run THEN Stopped(s, e.id) ELSE s
                           IN Ok([s1 EXCEPT !.tm = Del(@, e.id)], e.r)
    [] e.op = "burst" -> Ok(AddAll(Reg(s, e.tag), e.tag, e.ds), e.r)
    [] e.op = "getTag" -> IF e.bad THEN Refused(s, e.r)
                          ELSE LET s1 == Reg(s, e.tag) IN IF e.r.k = "str" /\ e.r.s = e.tag /\ ObsOK(s1, e.r) THEN {s1} ELSE {}
    [] e.op = "badget" -> Refused(s, e.r)
    [] e.op = "stats" -> LET s1 == Reg(s, e.tag) IN IF StatsOK(s1.sm[e.tag], e.r) /\ ObsOK(s1, e.r) THEN {s1} ELSE {}
    [] e.op = "reset" -> LET s1 == Reg(s, e.tag) IN Ok([s1 EXCEPT !.sm[e.tag] = <<>>], e.r)
    [] e.op = "print" -> IF ReportOK(s, e.sort, e.r) /\ ObsOK(s, e.r) THEN {s} ELSE {}
    [] e.op = "tstr" -> IF e.r.k = "str" /\ e.r.s = TimeText(e.s, e.us) /\ ObsOK(s, e.r) THEN {s} ELSE {}
    [] OTHER -> {}

(* ------------------------------------------------------------- the protocol *)
(* enabled calls of the model, as events; used to generate call sequences     *)
TypeOK(s) == /\ { s.order[i] : i \in 1..Len(s.order) } = DOMAIN s.sm /\ DOMAIN s.hd = DOMAIN s.sm
             /\ \A id \in DOMAIN s.tm : s.tm[id].tag \in DOMAIN s.sm /\ s.tm[id].t0 <= s.now
             /\ \A t \in DOMAIN s.sm : \A i \in 1..Len(s.sm[t]) : s.sm[t][i] >= 0
===============================================================================
