------------------------------ MODULE TimingConc ------------------------------
(* sm::timing used by several threads: calls, returns, and between them the   *)
(* atomic steps Hidden.  The order in which samples of a tag arrive does not  *)
(* matter for what is observed, they are kept sorted.                         *)
(* State: that of Timing.tla, and pend: thread -> [e, ph, v]; a call that     *)
(* names a tag registers it first (ph called -> reg), then acts (-> did).     *)
EXTENDS Timing
CInit == [now |-> 0, order |-> <<>>, hd |-> Emp, sm |-> Emp, tm |-> Emp, pend |-> Emp]
Add1(s, t, d) == [s EXCEPT !.sm[t] = SortSeq(Append(@, d), <)]
RegTag(s, t) == [Reg(s, t) EXCEPT !.order = <<>>]
Did(s, t, v) == [s EXCEPT !.pend[t].ph = "did", !.pend[t].v = v]
Stats == {"num", "total", "mean", "min", "max", "var", "hz"}
Step(s, t) ==
  LET c == s.pend[t] e == c.e IN
  CASE c.ph = "called" /\ e.op \in {"new", "handle"} -> {Did(IF e.op = "new" /\ e.h THEN s ELSE RegTag(s, e.tag), t, <<>>)}
    [] c.ph = "called" /\ e.op \in Stats \cup {"reset"} -> {[(IF e.h THEN s ELSE RegTag(s, e.tag)) EXCEPT !.pend[t].ph = "reg"]}
    [] c.ph = "reg" /\ e.op \in Stats -> {Did(s, t, s.sm[e.tag])}
    [] c.ph = "reg" /\ e.op = "reset" -> {Did([s EXCEPT !.sm[e.tag] = <<>>], t, <<>>)}
    [] c.ph = "called" /\ e.op \in {"stop", "drop"} -> {Did(Add1(s, e.tag, e.d), t, <<>>)}
    [] c.ph = "called" /\ e.op = "getTag" -> {Did(s, t, <<>>)}
    [] c.ph = "called" /\ e.op = "print" -> {Did(s, t, s.sm)}
    [] OTHER -> {}
Hidden(s) == UNION { Step(s, t) : t \in DOMAIN s.pend }
(* the value a getter returns for samples q (-1: none) *)
ValueOK(op, q, v) ==
  LET n == Len(q) IN
  CASE op = "num" -> v = n
    [] op = "total" -> v = Sum(q)
    [] n = 0 -> op \in Stats
    [] op = "min" -> v = MinS(q)
    [] op = "max" -> v = MaxS(q)
    [] op \in {"mean", "hz"} -> v \in 0..(256 * MaxS(q) + 1) /\ Abs(v * n - 256 * Sum(q)) <= n
    [] op = "var" -> v \in 0..(SumSq(q) \div n + 1) /\ Abs(v * n * n - (n * SumSq(q) - Sum(q) * Sum(q))) <= n * n
    [] OTHER -> FALSE
Returned(s, e) ==
  LET c == s.pend[e.t] u == [s EXCEPT !.pend = Del(@, e.t)] IN
  CASE c.e.op \in Stats -> IF e.r.k = "int" /\ ValueOK(c.e.op, c.v, e.r.i) THEN {u} ELSE {}
    [] c.e.op = "handle" -> IF /\ e.r.k = "int" /\ s.hd[c.e.tag] \in {-1, e.r.i}
                               /\ \A x \in DOMAIN s.hd \ {c.e.tag} : s.hd[x] # e.r.i
                            THEN {[u EXCEPT !.hd[c.e.tag] = e.r.i]} ELSE {}
    [] c.e.op = "getTag" -> IF e.r.k = "str" /\ e.r.s = c.e.tag THEN {u} ELSE {}
    [] c.e.op = "print" -> IF ReportOK([s EXCEPT !.sm = c.v], c.e.sort, e.r) THEN {u} ELSE {}
    [] OTHER -> IF e.r.k = "ok" THEN {u} ELSE {}
Visible(s, e) ==
  CASE e.k = "init" -> {s}
    [] e.k = "call" -> IF e.t \in DOMAIN s.pend THEN {} ELSE {[s EXCEPT !.pend = Put(@, e.t, [e |-> e, ph |-> "called", v |-> <<>>])]}
    [] e.k = "ret" -> IF e.t \in DOMAIN s.pend /\ s.pend[e.t].ph = "did" THEN Returned(s, e) ELSE {}
    [] e.k = "end" -> IF s.pend = Emp THEN {s} ELSE {}
    [] OTHER -> {}                        \* "abort": deadlock, crash, use of freed memory
RECURSIVE Closure(_)
Closure(S) == LET T == S \cup UNION { Hidden(s) : s \in S } IN IF T = S THEN S ELSE Closure(T)
After(S, e) == UNION { Visible(s, e) : s \in Closure(S) }
===============================================================================
