------------------------------- MODULE Logging --------------------------------
(* sm::logging seen by one thread: which log statements reach the installed   *)
(* logger, with what, after any history of configuration calls.               *)
(*                                                                            *)
(* State: lvl    the global level                                             *)
(*        on     the enabled streams (full names)                             *)
(*        site   statement -> [hit, last]: hidden state of ONCE and THROTTLE  *)
(*        lg     number of the installed logger                               *)
(*        mode   how it behaves: plain, throw, throwint, recurse, reconf, swap*)
(*        dead   shutdown() was called                                        *)
EXTENDS Integers, Sequences, FiniteSets, TLC
Info == 7
Fatal == 10
Emp == [x \in {} |-> 0]
Put(f, k, v) == [x \in DOMAIN f \cup {k} |-> IF x = k THEN v ELSE f[x]]
InitState == [lvl |-> Info, on |-> {"sm"}, site |-> Emp, lg |-> 1, mode |-> "plain", dead |-> FALSE]

(* ------------------------------------------------------------- stream names *)
StartsWith(x, p) == Len(x) >= Len(p) /\ SubSeq(x, 1, Len(p)) = p
FullName(n) == IF n = "sm" \/ StartsWith(n, "sm.") THEN n ELSE "sm." \o n

(* ------------------------------------------------------------------- levels *)
LevelNames == <<"all", "finest", "verbose", "finer", "trace", "fine", "debug", "info", "warn", "error", "fatal">>
Up == "ABCDEFGHIJKLMNOPQRSTUVWXYZ"
Lo == "abcdefghijklmnopqrstuvwxyz"
LowerC(c) == IF \E i \in 1..26 : SubSeq(Up, i, i) = c THEN LET i == CHOOSE i \in 1..26 : SubSeq(Up, i, i) = c IN SubSeq(Lo, i, i) ELSE c
RECURSIVE Lower(_)
Lower(x) == IF Len(x) = 0 THEN "" ELSE LowerC(SubSeq(x, 1, 1)) \o Lower(SubSeq(x, 2, Len(x)))
LevelOf(x) == LET l == Lower(x) IN IF \E i \in 1..11 : LevelNames[i] = l THEN (CHOOSE i \in 1..11 : LevelNames[i] = l) - 1 ELSE Info

(* --------------------------------------------------------------- statements *)
(* e: [id, lv, st, kind, cond, rate, now, m, p, n, nest]                      *)
Enabled(s, e) == e.lv >= s.lvl /\ (e.st = "" \/ e.st \in s.on)
Site(s, id) == IF id \in DOMAIN s.site THEN s.site[id] ELSE [hit |-> FALSE, last |-> -1]
Passes(s, e) == /\ Enabled(s, e)
                /\ CASE e.kind = "plain" -> TRUE
                     [] e.kind = "cond" -> e.cond
                     [] e.kind = "once" -> ~Site(s, e.id).hit
                     [] e.kind = "throttle" -> Site(s, e.id).last = -1 \/ Site(s, e.id).last + e.rate <= e.now
Hit(s, e) == IF e.kind \in {"once", "throttle"} THEN [s EXCEPT !.site = Put(@, e.id, [hit |-> TRUE, last |-> e.now])] ELSE s
(* a message handed to print(): [s, out] *)
Deliver(s, msg) ==
  IF s.dead THEN [s |-> s, out |-> <<>>]
  ELSE [s |-> CASE s.mode = "reconf" -> [s EXCEPT !.lvl = 0, !.on = @ \cup {"sm.b.c"}]
                [] s.mode = "swap" -> [s EXCEPT !.lg = 1, !.mode = "plain"]
                [] OTHER -> s,
        out |-> << [g |-> s.lg, lv |-> msg.lv, st |-> msg.st, m |-> msg.m, p |-> msg.p, t |-> msg.t, loc |-> TRUE] >>]
Nested(now) == [lv |-> Fatal, st |-> "sm", m |-> "nested", p |-> 0, t |-> now]
Exec(s, e) ==
  IF ~Passes(s, e) THEN [s |-> s, out |-> <<>>, ev |-> 0]
  ELSE LET s1 == Hit(s, e)
           d1 == IF e.nest /\ Enabled(s1, Nested(e.now)) THEN Deliver(s1, Nested(e.now)) ELSE [s |-> s1, out |-> <<>>]
           d2 == Deliver(d1.s, [lv |-> e.lv, st |-> e.st, m |-> ToString(e.n) \o ":" \o e.m, p |-> e.p, t |-> e.now])
       IN [s |-> d2.s, out |-> d1.out \o d2.out, ev |-> 1]

(* ------------------------------------------------------------------ actions *)
(* the state after event e and its result (without the observed state)        *)
After(s, e) ==
  CASE e.op = "exec" -> LET x == Exec(s, e) IN
         [s |-> x.s, r |-> [k |-> "exec", ev |-> x.ev, ce |-> IF e.kind = "cond" /\ Enabled(s, e) THEN 1 ELSE 0], out |-> x.out]
    [] e.op = "level" -> [s |-> [s EXCEPT !.lvl = e.lv], r |-> [k |-> "ok"], out |-> <<>>]
    [] e.op = "enable" -> [s |-> [s EXCEPT !.on = @ \cup {FullName(e.s)}], r |-> [k |-> "ok"], out |-> <<>>]
    [] e.op = "disable" -> [s |-> [s EXCEPT !.on = @ \ {FullName(e.s)}], r |-> [k |-> "ok"], out |-> <<>>]
    [] e.op = "isOn" -> [s |-> s, r |-> [k |-> "bool", b |-> FullName(e.s) \in s.on], out |-> <<>>]
    [] e.op = "logger" -> [s |-> IF e.mode = "null" THEN s ELSE [s EXCEPT !.lg = e.g, !.mode = e.mode], r |-> [k |-> "ok"], out |-> <<>>]
    [] e.op = "fromString" ->   \* an unknown name is reported through the logger as well
         [s |-> IF Lower(e.s) \in { LevelNames[i] : i \in 1..11 } \/ ~Enabled(s, [lv |-> 9, st |-> "sm"]) THEN s
                ELSE Deliver(s, [lv |-> 9, st |-> "sm", m |-> "", p |-> 0, t |-> 0]).s,
          r |-> [k |-> "int", i |-> LevelOf(e.s)], out |-> <<>>]
    [] e.op = "shutdown" -> [s |-> [s EXCEPT !.dead = TRUE], r |-> [k |-> "ok"], out |-> <<>>]

Pool == {"sm", "sm.a", "sm.b.c", "sm.gen", "sm.", "sm.smx", "sm.sm"}
Range(q) == { q[i] : i \in 1..Len(q) }
(* the next states that the recorded result e.r allows *)
Next1(s, e) ==
  LET a == After(s, e) IN
  IF /\ \A f \in DOMAIN a.r : f \in DOMAIN e.r /\ e.r[f] = a.r[f]
     /\ e.r.out = a.out /\ e.r.lvl = a.s.lvl /\ Range(e.r.on) = a.s.on \cap Pool /\ e.r.g = a.s.lg
  THEN {a.s} ELSE {}
===============================================================================
