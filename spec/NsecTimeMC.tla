------------------------------ MODULE NsecTimeMC ------------------------------
EXTENDS NsecTime, TLC, Json
CONSTANTS Limbs
VARIABLES t, done
Top == {0, 1, 9}
Init == /\ t \in { x \in { [neg |-> n, q |-> <<a, b, c, d>>] : n \in BOOLEAN, a, b, c \in Limbs, d \in Top } : IsTime(x) }
        /\ done = FALSE
Next == ~done /\ done' = TRUE /\ t' = t /\
        PrintT("@H " \o ToJson(<<[op |-> "valid", t |-> t], [op |-> "chrono", t |-> t], [op |-> "sec", t |-> t]>>))
(* distance is a metric compatible with the order; the arithmetic is sound *)
Arith == /\ Dist(t, t) = Zero /\ AddQ(SubQ(Max, IF t.neg THEN Zero ELSE t.q), IF t.neg THEN Zero ELSE t.q) = Max
         /\ ~Less(t, Invalid) /\ Near(t, t)
===============================================================================
