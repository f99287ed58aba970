----------------------------- MODULE KinObjectsMC -----------------------------
(* Every type: each single number changed, every format, pairs of types in    *)
(* one archive, random objects, property trees.                               *)
EXTENDS KinObjects, Json
CONSTANTS Depth, Mode
VARIABLES hist
Formats == {"text", "binary", "xml"}
First == {"T0", "U0", "H0", "P0", "A0", "B0", "C0", "D0"}
Other(s) == SubSeq(s, 1, 1) \o "1"
Full(s, k) == [i \in 1..Size[Slots[s]] |-> ToString(k + i)]
Single(s, i, v) == [Full(s, 0) EXCEPT ![i] = v]
Odd == {"x3fb999999999999a", "x0000000000000001", "x8000000000000000", "x7fefffffffffffff", "xc1d0000000400000"}
Part(s, i) == \* numbers differing in one place only; equality, all formats
  << [op |-> "set", s |-> s, c |-> Full(s, 0)], [op |-> "set", s |-> Other(s), c |-> Single(s, i, "x3fb999999999999a")], [op |-> "equal", s |-> s, from |-> Other(s)],
     [op |-> "equal", s |-> s, from |-> s], [op |-> "copy", s |-> s, from |-> Other(s)], [op |-> "equal", s |-> s, from |-> Other(s)], [op |-> "show", s |-> Other(s)],
     [op |-> "fresh", s |-> s], [op |-> "equal", s |-> s, from |-> Other(s)] >>
File(s, i, v, f) ==
  << [op |-> "set", s |-> s, c |-> Single(s, i, v)], [op |-> "fsave", s |-> s, name |-> "a", f |-> f], [op |-> "set", s |-> s, c |-> Full(s, 70)], [op |-> "set", s |-> Other(s), c |-> Full(s, 50)],
     [op |-> "fload", s |-> Other(s), name |-> "a", f |-> f], [op |-> "show", s |-> s], [op |-> "fload", s |-> s, name |-> "b", f |-> f], [op |-> "show", s |-> s], [op |-> "equal", s |-> s, from |-> Other(s)] >>
Arch(s, u, f) ==
  << [op |-> "create", f |-> f], [op |-> "set", s |-> s, c |-> Full(s, 0)], [op |-> "save", s |-> s], [op |-> "set", s |-> u, c |-> Full(u, 100)], [op |-> "save", s |-> u],
     [op |-> "set", s |-> s, c |-> Full(s, 200)], [op |-> "save", s |-> s],
     [op |-> "fresh", s |-> s], [op |-> "fresh", s |-> u], [op |-> "open"], [op |-> "load", s |-> Other(s)], [op |-> "load", s |-> Other(u)], [op |-> "load", s |-> s], [op |-> "show", s |-> u], [op |-> "show", s |-> Other(s)] >>
Newer(s, v) == << [op |-> "set", s |-> s, c |-> Full(s, 0)], [op |-> "newer", s |-> s, v |-> v], [op |-> "show", s |-> s] >>
Rnd(s) == << [op |-> "random", s |-> s, seed |-> 1], [op |-> "random", s |-> s], [op |-> "random", s |-> s, seed |-> 2], [op |-> "show", s |-> s] >>
RndMax(s, a, b) == << [op |-> "random", s |-> s, tmax |-> a, rmax |-> b, seed |-> 7 * a + b], [op |-> "random", s |-> s, tmax |-> a, rmax |-> b] >>
Quats == {<<0, 0, 0, 1>>, <<0, 0, 0, 0 - 3>>, <<1, 1, 1, 1>>, <<2, 1, 0 - 2, 4>>, <<0, 3, 0, 4>>, <<0 - 2, 2, 1, 0>>, <<5, 0, 0, 12>>}
Len2(q) == Sq(q[1]) + Sq(q[2]) + Sq(q[3]) + Sq(q[4])
Drops == {"", "q_a_b/x", "q_a_b/y", "q_a_b/z", "q_a_b/w", "t_a_b_a/x", "t_a_b_a/y", "t_a_b_a/z", "q_a_b", "t_a_b_a"}
Init == hist = <<>>
Next ==
  /\ hist = <<>>
  /\ \/ Mode = "parts" /\ \E s \in First : \E i \in 1..Size[Slots[s]] : hist' = Part(s, i)
     \/ Mode = "file" /\ \E s \in First, f \in Formats, v \in Odd : \E i \in (IF Depth = 0 THEN {1, Size[Slots[s]]} ELSE 1..Size[Slots[s]]) : hist' = File(s, i, v, f)
     \/ Mode = "arch" /\ \E s, u \in First, f \in Formats : s # u /\ hist' = Arch(s, u, f)
     \/ Mode = "other" /\ \E s \in First, v \in {0, 1, 7} : hist' = Newer(s, v)
     \/ Mode = "other" /\ \E s \in First : hist' = Rnd(s)
     \/ Mode = "other" /\ \E s \in {"T0", "U0"}, a \in {0, 1, 64, 6400}, b \in {0, 1, 32, 64, 200, 400} : hist' = RndMax(s, a, b)
     \/ Mode = "other" /\ \E q \in Quats, ns \in {"", "cam"}, d \in Drops : \E n \in 1..13 : n * n = Len2(q) /\ hist' = << [op |-> "ptree", q |-> q, n |-> n, t |-> <<1, 0 - 20, 800>>, ns |-> ns, drop |-> d] >>
Bound == IF hist = <<>> THEN TRUE ELSE PrintT("@H " \o ToJson(hist)) /\ FALSE
Laws == hist = <<>> => \A s \in First : Len(Fresh(Slots[s])) = Size[Slots[s]] /\ Slots[Other(s)] = Slots[s]
===============================================================================
