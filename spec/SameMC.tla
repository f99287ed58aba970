-------------------------------- MODULE SameMC --------------------------------
(* Every pair of small objects under every kind of comparison.                *)
EXTENDS Same, Json, TLC
CONSTANTS Mode, Depth
VARIABLES hist
B == 0..1
Lf == [x : B, y : B]
Ls == {[x |-> 0, y |-> 0], [x |-> 0, y |-> 1], [x |-> 1, y |-> 0]}
Ptr(S) == {<<>>} \cup { <<v>> : v \in S }
Nodes == [key : B, leaf : Lf, p : Ptr(Ls), s : Ptr(B), t : Ptr(Ls), ip : Ptr(B)]
A0 == [key |-> 0, leaf |-> [x |-> 0, y |-> 0], p |-> <<[x |-> 0, y |-> 0]>>, s |-> <<0>>, t |-> <<[x |-> 0, y |-> 0]>>, ip |-> <<0>>]
A1 == [A0 EXCEPT !.p = <<>>, !.t = <<>>, !.s = <<>>, !.ip = <<>>]
Near(a) == { n \in Nodes : Cardinality(Diffs(a, n, Members)) <= Depth }
Types == {"T", "UT", "HP", "UHP", "UV3", "UV1", "UV6"}
Parts == [T |-> 2, UT |-> 3, HP |-> 1, UHP |-> 2, UV3 |-> 2, UV1 |-> 2, UV6 |-> 2]
Asks(v) == << [op |-> "verbose", b |-> v], [op |-> "same", i |-> 1, j |-> 2], [op |-> "same", i |-> 2, j |-> 1], [op |-> "differ", i |-> 1, j |-> 2], [op |-> "and", i |-> 1, j |-> 1, k |-> 2],
              [op |-> "and", i |-> 1, j |-> 2, k |-> 2], [op |-> "or", i |-> 1, j |-> 2, k |-> 2], [op |-> "ptr", i |-> 1, j |-> 2, sh |-> v, dep |-> FALSE], [op |-> "ptr", i |-> 0, j |-> 2, sh |-> ~v, dep |-> v],
              [op |-> "ptr", i |-> 1, j |-> 0, sh |-> v, dep |-> FALSE], [op |-> "ptr", i |-> 0, j |-> 0, sh |-> v, dep |-> FALSE], [op |-> "samev", i |-> 1, j |-> 2, b |-> ~v], [op |-> "memv", i |-> 1, j |-> 2, b |-> v], [op |-> "same", i |-> 1, j |-> 3] >>
Init == \/ Mode = "kin" /\ \E t \in Types : \E d \in {<<>>} \cup { <<i>> : i \in 1..Parts[t] } : hist = << [op |-> "kin", ty |-> t, d |-> d] >>
        \/ Mode = "nodes" /\ \E a \in {A0, A1}, v \in BOOLEAN : \E b \in Near(a) : hist = << [op |-> "set", i |-> 1, v |-> a], [op |-> "set", i |-> 2, v |-> b] >> \o Asks(v)
Next == FALSE /\ UNCHANGED hist
Bound == PrintT("@H " \o ToJson(hist))
Laws == Mode = "nodes" => (LET a == hist[1].v  b == hist[2].v IN (NodeNames(a, b) = <<>>) = (a = b) /\ Len(NodeNames(a, b)) <= 2)
===============================================================================
