--------------------------------- MODULE Same ---------------------------------
(* Comparison by SM_CHECKSAME / SM_CHECKMEMBERSSAME (sm_common).  Objects are *)
(* nodes [key, leaf, p, s, t, ip] where leaf = [x, y]; p, t point to a leaf,  *)
(* s to a plain value, ip to an integer; a pointer is <<>> or <<target>>.     *)
(* Two objects are the same iff they are equal as trees.  In verbose mode the *)
(* comparison names the members that differ, innermost first, up to the first *)
(* difference on each level; the mode is global.                              *)
EXTENDS Integers, Sequences, FiniteSets
Members == <<"key", "leaf", "p", "s", "t", "ip">>
LeafMembers == <<"x", "y">>
Min(S) == CHOOSE x \in S : \A y \in S : x <= y
Diffs(a, b, M) == { i \in 1..Len(M) : a[M[i]] # b[M[i]] }
(* names reported when two leaves, two nodes are compared                     *)
LeafNames(a, b) == IF a = b THEN <<>> ELSE <<LeafMembers[Min(Diffs(a, b, LeafMembers))]>>
PtrNames(a, b) == IF Len(a) = 1 /\ Len(b) = 1 THEN LeafNames(a[1], b[1]) ELSE <<>>
NodeNames(a, b) ==
  IF a = b THEN <<>>
  ELSE LET m == Members[Min(Diffs(a, b, Members))] IN
       (CASE m = "leaf" -> LeafNames(a.leaf, b.leaf) [] m \in {"p", "t"} -> PtrNames(a[m], b[m]) [] OTHER -> <<>>) \o <<m>>
(* null pointers to nodes are index 0                                         *)
SInit == [n |-> [i \in 1..3 |-> [key |-> 0, leaf |-> [x |-> 0, y |-> 0], p |-> <<>>, s |-> <<>>, t |-> <<>>, ip |-> <<>>]], verbose |-> FALSE]
Just(b, x) == IF b THEN {x} ELSE {}
Reply(e, v, same, names) == e.r.k = "same" /\ e.r.b = same /\ e.r.names = (IF v /\ ~same THEN names ELSE <<>>)
Ref(s, i) == IF i = 0 THEN <<>> ELSE <<s.n[i]>>
SNext(s, e) ==
  CASE e.op = "set" -> Just(e.r.k = "ok", [s EXCEPT !.n[e.i] = e.v])
    [] e.op = "verbose" -> Just(e.r.k = "ok", [s EXCEPT !.verbose = e.b])
    [] e.op = "same" -> \* two nodes, compared directly
         Just(Reply(e, s.verbose, s.n[e.i] = s.n[e.j], NodeNames(s.n[e.i], s.n[e.j]) \o <<"top">>), s)
    [] e.op = "samev" -> \* the same, with the mode as third argument; it stays in force
         Just(Reply(e, e.b, s.n[e.i] = s.n[e.j], NodeNames(s.n[e.i], s.n[e.j]) \o <<"top">>), [s EXCEPT !.verbose = e.b])
    [] e.op = "memv" -> \* two members one after another, the mode as third argument of the first
         LET f == s.n[e.i].key = s.n[e.j].key  g == s.n[e.i].leaf = s.n[e.j].leaf IN
         Just(Reply(e, e.b, f /\ g, IF ~f THEN <<"key">> ELSE LeafNames(s.n[e.i].leaf, s.n[e.j].leaf) \o <<"leaf">>), [s EXCEPT !.verbose = e.b])
    [] e.op = "differ" -> \* ! SM_CHECKSAME(a, b)
         Just(e.r.k = "differ" /\ e.r.b = (s.n[e.i] # s.n[e.j]), s)
    [] e.op = "and" -> \* SM_CHECKSAME(a, b) && SM_CHECKSAME(b, c)
         LET f == s.n[e.i] = s.n[e.j]  g == s.n[e.j] = s.n[e.k] IN
         Just(Reply(e, s.verbose, f /\ g, IF ~f THEN NodeNames(s.n[e.i], s.n[e.j]) \o <<"top">> ELSE NodeNames(s.n[e.j], s.n[e.k]) \o <<"third">>), s)
    [] e.op = "or" -> \* SM_CHECKSAME(a, b) || SM_CHECKSAME(b, c)
         Just(e.r.k = "or" /\ e.r.b = (s.n[e.i] = s.n[e.j] \/ s.n[e.j] = s.n[e.k]), s)
    [] e.op = "ptr" -> \* by pointer or shared pointer, either may be null
         \* (dep: by the function sm::isBinaryEqual of the deprecated header)
         LET a == Ref(s, e.i)  b == Ref(s, e.j) IN
         IF e.dep THEN Just(e.r.k = "fn" /\ e.r.b = (a = b), s) ELSE
         Just(Reply(e, s.verbose, a = b, (IF Len(a) = 1 /\ Len(b) = 1 THEN NodeNames(a[1], b[1]) ELSE <<>>) \o <<"top">>), s)
    [] e.op = "kin" -> \* two objects of a library type that are equal but for the parts in e.d
         Just(e.r.k = "kin" /\ e.r.ab = (e.d = <<>>) /\ e.r.ba = (e.d = <<>>) /\ e.r.aa, s)
    [] OTHER -> {}
===============================================================================
