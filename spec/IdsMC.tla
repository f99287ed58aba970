-------------------------------- MODULE IdsMC ---------------------------------
(* All short histories over a few texts and numbers, and the laws of the      *)
(* arithmetic that the specification uses.                                    *)
EXTENDS Ids, Json
CONSTANTS Mode, Depth
VARIABLES st, hist
Rep(c, n) == [i \in 1..n |-> c]
Last(c, x) == Rep(c, 31) \o <<x>>
Texts == { Rep(48, 32), Last(48, 49), <<49>> \o Rep(48, 31), Rep(48, 15) \o <<49>> \o Rep(48, 16), Rep(48, 16) \o <<49>> \o Rep(48, 15), Rep(102, 32), Rep(70, 32),
           Last(97, 65), Rep(48, 31), Rep(48, 33), <<>>, Last(49, 103), <<48, 120>> \o Rep(49, 30), Last(49, 32), <<45>> \o Rep(49, 31), Rep(49, 30) \o <<43, 50>>, Rep(49, 16) \o <<71>> \o Rep(49, 15) }
Nums == { Unset, Zeros(16), Zeros(15) \o <<15>>, Zeros(8) \o Ones(8), <<7>> \o Ones(15), <<8>> \o Zeros(15), Ones(15) \o <<14>> }
HCalls == [op : {"hfrom"}, i : 1..2, s : Texts] \cup [op : {"hcopy", "hwords"}, i : {1}, j : {2}] \cup [op : {"hinv", "hins", "hera"}, i : {1}]
DCalls == [op : {"dset"}, i : 1..2, v : Nums] \cup [op : {"dpre", "dpost"}, i : {1}] \cup [op : {"dswap", "dcopy", "dser"}, i : {1}, j : {2}] \cup [op : {"dclear", "dins", "dera"}, i : {1}]
Obs == IF Mode = "hash" THEN <<[op |-> "hhas", i |-> 1], [op |-> "hobs"]>> ELSE <<[op |-> "dhas", i |-> 1], [op |-> "dobs"]>>
Init == hist = <<>> /\ st = 0
Next == st' = st /\ \E c \in (IF Mode = "hash" THEN HCalls ELSE DCalls) : hist' = Append(hist, c)
Bound == IF Len(hist) < Depth THEN TRUE ELSE PrintT("@H " \o ToJson(hist \o Obs)) /\ FALSE
(* the order of the specification is a total order and Succ its successor     *)
Small == { Zeros(13) \o <<a, b, c>> : a, b, c \in {0, 1, 15} } \cup Nums
ASSUME \A x, y \in Small : (x # y) => (NLess(x, y) # NLess(y, x))
ASSUME \A x, y, z \in Small : (NLess(x, y) /\ NLess(y, z)) => NLess(x, z)
ASSUME \A x \in Small : IF x = Unset THEN Succ(x) = Zeros(16) ELSE NLess(x, Succ(x)) /\ \A y \in Small : ~(NLess(x, y) /\ NLess(y, Succ(x)))
ASSUME \A t \in Texts : IsHex(t, 32) => Digits(LowerHex(Digits(t))) = Digits(t)
Laws == TRUE
===============================================================================
