----------------------------- MODULE LogAssertsMC -----------------------------
(* Every macro, condition and small operands.                                 *)
EXTENDS LogAsserts, Json, TLC
CONSTANTS Depth
VARIABLES hist
V == -Depth..Depth
Calls == { [op |-> o, c |-> c, x |-> x, y |-> y, ent |-> b, nd |-> n] : o \in {"ASSERT", "MSG", "CMD"}, c \in 0..9, x \in V, y \in V, b \in BOOLEAN, n \in BOOLEAN }
         \cup { [op |-> "BREAK", c |-> c, x |-> 0, y |-> 0, ent |-> b, nd |-> n] : c \in {0, 9}, b \in BOOLEAN, n \in BOOLEAN }
Init == \E e \in { e \in Calls : e.c = 9 \/ e.ent } : hist = <<e>>
Next == FALSE /\ UNCHANGED hist
Bound == PrintT("@H " \o ToJson(hist))
(* conditions 1 and 7 are complements, so are 5 and 8; 6 is equality of truth *)
Laws == \A e \in {hist[1]} :
  /\ Holds(1, e.x, e.y) # Holds(7, e.x, e.y) /\ Holds(5, e.x, e.y) # Holds(8, e.x, e.y)
  /\ Holds(6, e.x, e.y) = (Holds(1, e.x, e.y) = Holds(1, e.y, e.x))
  /\ Holds(3, e.x, e.y) => Holds(4, e.x, e.y)
  /\ Broken("LT") /\ Broken("LLT") /\ ~Broken("T") /\ ~Broken("TL") /\ ~Broken("LTT") /\ ~Broken("oT")
===============================================================================
