------------------------------- MODULE TimingMC -------------------------------
(* Timer life cycles: all call sequences on two timers sharing a tag or not.  *)
EXTENDS Timing, Json
CONSTANTS Mode, Depth
VARIABLES st, hist, stops
vars == <<st, hist, stops>>
Ids == {1, 2}
Calls(s) ==
  { [op |-> "new", id |-> i, tag |-> t, byh |-> FALSE, bad |-> FALSE, stopped |-> b] : i \in Ids \ DOMAIN s.tm, t \in {"a", "b"}, b \in BOOLEAN } \cup
  { [op |-> o, id |-> i] : o \in {"start", "stop", "destroy"}, i \in DOMAIN s.tm } \cup
  (IF Mode = "mc" THEN { [op |-> "tick", d |-> 1] } \cup { [op |-> "reset", tag |-> t, byh |-> FALSE] : t \in DOMAIN s.sm } ELSE {})
(* the model's own answer to a call *)
Answer(s, e) ==
  LET refuse == \/ e.op = "start" /\ s.tm[e.id].run
                \/ e.op = "stop" /\ ~s.tm[e.id].run
      s1 == CASE e.op = "new" -> Reg(s, e.tag)
              [] e.op = "stop" /\ ~refuse -> Stopped(s, e.id)
              [] e.op = "destroy" /\ s.tm[e.id].run -> Stopped(s, e.id)
              [] e.op = "reset" -> [s EXCEPT !.sm[e.tag] = <<>>]
              [] OTHER -> s
      ns == [i \in 1..Len(s1.order) |-> Len(s1.sm[s1.order[i]])]
        ts == [i \in 1..Len(s1.order) |-> Sum(s1.sm[s1.order[i]])]
  IN IF refuse THEN [k |-> "exc", t |-> "timer", ns |-> ns, ts |-> ts] ELSE [k |-> "ok", ns |-> ns, ts |-> ts]
Init == st = InitState /\ hist = <<>> /\ stops = 0
Next == \E e \in Calls(st) : LET r == Answer(st, e)
                                 n == Next1(st, [x \in DOMAIN e \cup {"r"} |-> IF x = "r" THEN r ELSE e[x]])
                             IN /\ n # {}
                                /\ st' \in n
                                /\ hist' = IF Mode = "mc" THEN <<>> ELSE Append(Append(hist, [op |-> "tick", d |-> 7 + Len(hist)]), e)
                                /\ stops' = IF e.op = "reset" THEN stops - Len(st.sm[e.tag])
                                            ELSE IF (e.op \in {"stop", "destroy"} /\ st.tm[e.id].run) THEN stops + 1 ELSE stops
RECURSIVE Total(_, _)
Total(s, ts) == IF ts = {} THEN 0 ELSE LET t == CHOOSE x \in ts : TRUE IN Len(s.sm[t]) + Total(s, ts \ {t})
Inv == TypeOK(st)
(* exactly one sample per completed start/stop, none lost and none invented *)
OneSamplePerStop == Total(st, DOMAIN st.sm) = stops
Bound == IF Mode = "mc" THEN st.now <= 3 /\ stops <= Depth
         ELSE IF Len(hist) = 2 * Depth THEN PrintT("@H " \o ToJson(hist)) /\ FALSE ELSE TRUE
===============================================================================
