------------------------------- MODULE RandomMC -------------------------------
(* All short histories: something drawn, a seed, draws, the seed again, draws *)
EXTENDS Random, Json
CONSTANTS Depth, Mode
VARIABLES hist, st
D(d) == [op |-> "draw", d |-> d, a |-> "0", b |-> "0"]
Draws == { D(d) : d \in {"uniform", "rand", "normal", "randn"} } \cup {[op |-> "draw", d |-> "lu", a |-> "-1", b |-> "3"], [op |-> "draw", d |-> "lui", a |-> "-2", b |-> "5"], [op |-> "vec", n |-> 2], [op |-> "vec", n |-> 0]}
Ops == Draws \cup { [op |-> "seed", s |-> x] : x \in {"0", "1"} }
(* a generator to run the specification against: the value is a hash of its key *)
Val(sd, p) == ToString(<<sd, p>>)
Res(e) == CASE e.op = "seed" -> [k |-> "ok"]
            [] e.op = "draw" -> [k |-> "vals", v |-> <<Val(st.seed, Append(st.done, Key(e)))>>, in |-> TRUE]
            [] e.op = "vec" -> [k |-> "vals", v |-> [i \in 1..e.n |-> Val(st.seed, st.done \o [j \in 1..i |-> "n"])], in |-> TRUE]
With(e) == [k \in DOMAIN e \cup {"r"} |-> IF k = "r" THEN Res(e) ELSE e[k]]
Init == hist = <<>> /\ st = SInit
Next == \E e \in Ops : hist' = Append(hist, e) /\ st' \in SNext(st, With(e))
Bound == IF Len(hist) = Depth THEN PrintT("@H " \o ToJson(hist)) /\ FALSE ELSE TRUE
(* the memo is a function, and a pure generator is always accepted *)
Laws == /\ \A m, n \in st.memo : (m.s = n.s /\ m.d = n.d) => m.v = n.v
        /\ \A e \in Ops : SNext(st, With(e)) # {}
===============================================================================
