----------------------------- MODULE LoggingConc ------------------------------
(* sm::logging used by several threads: calls and returns of log statements   *)
(* and configuration calls, entries to and exits from Logger::log.  What      *)
(* happens in between is one of the atomic internal steps Hidden.             *)
(*                                                                            *)
(* State: lvl, on   configuration                                             *)
(*        lg        the installed logger                                      *)
(*        modes     logger -> how it behaves                                  *)
(*        dead      shutdown() has taken effect                               *)
(*        inlog     the thread inside Logger::log (-1: none)                  *)
(*        pend      thread -> pending call [e, ph, v, g, pre]                 *)
(*                  ph of a statement: called, no, want, have, in, left       *)
(*                  ph of another call: called, did                           *)
(*                  pre: configurations that statements may still be using    *)
EXTENDS Integers, Sequences, FiniteSets, TLC
Emp == [x \in {} |-> 0]
Put(f, k, v) == [x \in DOMAIN f \cup {k} |-> IF x = k THEN v ELSE f[x]]
Del(f, k) == [x \in DOMAIN f \ {k} |-> f[x]]
InitState == [lvl |-> 7, on |-> {"sm"}, lg |-> 1, modes |-> Emp, dead |-> FALSE, inlog |-> -1, pend |-> Emp]
Full(n) == IF n = "sm" \/ (Len(n) > 2 /\ SubSeq(n, 1, 3) = "sm.") THEN n ELSE "sm." \o n
(* the statements of the driver: level and stream *)
Sites == << <<7, "sm">>, <<7, "sm">>, <<6, "sm">>, <<6, "sm">>, <<8, "sm.a">>, <<8, "sm.a">>, <<7, "sm.a">>, <<10, "sm">>, <<9, "sm">>, <<9, "">> >>
SiteOf(e) == Sites[e.site + 1]
On(cfg, x) == x[1] >= cfg.lvl /\ (x[2] = "" \/ x[2] \in cfg.on)
Cfg(s) == [lvl |-> s.lvl, on |-> s.on]
(* configurations a statement may be decided by: the current one, and the one *)
(* before a change that is still in progress                                  *)
Cfgs(s) == {Cfg(s)} \cup UNION { s.pend[t].pre : t \in DOMAIN s.pend }

Ph(s, t, ph) == [s EXCEPT !.pend[t].ph = ph]
Did(s, t, v) == [s EXCEPT !.pend[t].ph = "did", !.pend[t].v = v]
(* a change waits for the previous one to be complete *)
Alone(s, t) == [s EXCEPT !.pend = [x \in DOMAIN @ |-> IF x = t THEN [@[x] EXCEPT !.pre = {Cfg(s)}] ELSE [@[x] EXCEPT !.pre = {}]]]
Change(s, t) == Alone(Did(s, t, 0), t)

Step(s, t) ==
  LET c == s.pend[t] e == c.e IN
  IF e.op = "exec" THEN
    CASE c.ph = "called" ->
           { Ph(s, t, IF On(k, SiteOf(e)) THEN "want" ELSE "no") : k \in Cfgs(s) } \cup (IF s.dead THEN {Ph(s, t, "no")} ELSE {})
      [] c.ph = "want" -> (IF s.dead THEN {Ph(s, t, "no")} ELSE {}) \cup (IF s.inlog = -1 THEN {[Ph(s, t, "have") EXCEPT !.pend[t].g = s.lg]} ELSE {})
      [] c.ph = "in" /\ ~c.fx ->      \* what the logger does besides
           CASE s.modes[c.g] = "reconf" -> {[Alone(s, t) EXCEPT !.pend[t].fx = TRUE, !.lvl = 0]}
             [] s.modes[c.g] = "swap" -> {[s EXCEPT !.pend[t].fx = TRUE, !.lg = 1]}
             [] OTHER -> {[s EXCEPT !.pend[t].fx = TRUE]}
      [] OTHER -> {}
  ELSE IF c.ph = "did" THEN {}
  ELSE CASE e.op = "level" -> {[Change(s, t) EXCEPT !.lvl = e.lv]}
         [] e.op = "enable" -> {[Change(s, t) EXCEPT !.on = @ \cup {Full(e.s)}]}
         [] e.op = "disable" -> {[Change(s, t) EXCEPT !.on = @ \ {Full(e.s)}]}
         [] e.op = "isOn" -> {Did(s, t, IF Full(e.s) \in s.on THEN 1 ELSE 0)}
         [] e.op = "getLevel" -> {Did(s, t, s.lvl)}
         [] e.op = "logger" -> {[Did(s, t, 0) EXCEPT !.lg = IF e.g = 0 THEN @ ELSE e.g]}
         [] e.op = "getLogger" -> {Did(s, t, s.lg)}
         [] e.op = "shutdown" -> {[Did(s, t, 0) EXCEPT !.dead = TRUE]}
Hidden(s) == UNION { Step(s, t) : t \in DOMAIN s.pend }

Visible(s, e) ==
  CASE e.k = "init" -> {[s EXCEPT !.modes = [g \in { e.modes[i].g : i \in 1..Len(e.modes) } |->
                           LET i == CHOOSE x \in 1..Len(e.modes) : e.modes[x].g = g IN e.modes[i].mode]]}
    [] e.k = "call" -> IF e.t \in DOMAIN s.pend THEN {}
                       ELSE {[s EXCEPT !.pend = Put(@, e.t, [e |-> e, ph |-> "called", v |-> 0, g |-> 0, pre |-> {}, fx |-> FALSE])]}
    [] e.k = "enter" -> IF e.t \notin DOMAIN s.pend THEN {}
                        ELSE LET c == s.pend[e.t] IN
                             IF c.e.op = "exec" /\ c.ph = "have" /\ s.inlog = -1 /\ e.g = c.g /\ e.n = c.e.n
                                /\ <<e.lv, e.st>> = SiteOf(c.e)
                             THEN {[Ph(s, e.t, "in") EXCEPT !.inlog = e.t]} ELSE {}
    [] e.k = "leave" -> IF s.inlog = e.t /\ s.pend[e.t].fx THEN {[Ph(s, e.t, "left") EXCEPT !.inlog = -1, !.pend[e.t].pre = {}]} ELSE {}
    [] e.k = "ret" -> IF e.t \notin DOMAIN s.pend THEN {}
                      ELSE LET c == s.pend[e.t] IN
                           IF c.e.op = e.op /\ (IF e.op = "exec" THEN c.ph \in {"no", "left"} ELSE c.ph = "did" /\ c.v = e.v)
                           THEN {[s EXCEPT !.pend = Del(@, e.t)]} ELSE {}
    [] e.k = "end" -> IF s.pend = Emp THEN {s} ELSE {}
    [] OTHER -> {}                        \* "abort": deadlock, crash, use of a destroyed logger

RECURSIVE Closure(_)
Closure(S) == LET T == S \cup UNION { Hidden(s) : s \in S } IN IF T = S THEN S ELSE Closure(T)
After(S, e) == UNION { Visible(s, e) : s \in Closure(S) }
===============================================================================
