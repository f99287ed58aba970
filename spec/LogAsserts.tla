------------------------------ MODULE LogAsserts ------------------------------
(* The assertion macros of sm/logging/assert.h: SM_ASSERT, SM_ASSERT_MSG,     *)
(* SM_ASSERT_CMD, SM_BREAK (events ASSERT, MSG, CMD, BREAK), each with the    *)
(* conditions numbered c below over two integers, compiled with and without   *)
(* NDEBUG (nd).  Condition 9 is condition 0 with the macro as the only        *)
(* statement of `if (ent) ... else`.  State: the level in force.              *)
EXTENDS Integers, Sequences
SInit == [level |-> 7]
True(x) == x # 0
Holds(c, x, y) ==
  CASE c \in {0, 9} -> x > 0
    [] c = 1 -> True(x)
    [] c = 2 -> x = y
    [] c = 3 -> True(x) /\ True(y)
    [] c = 4 -> True(y) \/ True(x)
    [] c = 5 -> x % 2 = 1
    [] c = 6 -> IF True(x) THEN True(y) ELSE ~True(y)
    [] c = 7 -> ~True(x)
    [] OTHER -> x % 2 = 0
Evals(c, y) == IF c = 4 /\ True(y) THEN 0 ELSE 1
RECURSIVE AllBut(_, _)
AllBut(o, ch) == IF o = "" THEN TRUE ELSE SubSeq(o, 1, 1) = ch /\ AllBut(SubSeq(o, 2, Len(o)), ch)
(* at least one fatal message, then exactly one trap                          *)
Broken(o) == Len(o) >= 2 /\ SubSeq(o, Len(o), Len(o)) = "T" /\ AllBut(SubSeq(o, 1, Len(o) - 1), "L")
Reached(e) == e.c # 9 \/ e.ent
Good(s, e) ==
  LET r == e.r
      live == ~e.nd /\ Reached(e)
      fails == live /\ (e.op = "BREAK" \/ ~Holds(e.c, e.x, e.y))
      Logged == Broken(r.order) /\ r.file /\ r.line
  IN /\ r.k = "ran"
     /\ r.elses = IF Reached(e) THEN 0 ELSE 1
     /\ r.evals = IF live /\ e.op # "BREAK" THEN Evals(e.c, e.y) ELSE 0
     /\ r.cmds = IF fails /\ e.op = "CMD" THEN 1 ELSE 0
     /\ IF ~fails \/ e.op = "CMD" THEN r.order = ""
        ELSE /\ Logged
             /\ e.op \in {"ASSERT", "MSG"} => r.cond
             /\ e.op = "MSG" => r.msg
SNext(s, e) == CASE e.op = "level" -> IF e.r.k = "ok" THEN {[s EXCEPT !.level = e.l]} ELSE {}
                 [] OTHER -> IF Good(s, e) THEN {s} ELSE {}
===============================================================================
