------------------------------ MODULE StringsMC -------------------------------
(* Every call on small texts, one per behaviour, and laws of the results.     *)
EXTENDS Strings, Json, TLC
CONSTANTS Mode, Depth
VARIABLES hist
Over(A, n) == UNION { [1..m -> A] : m \in 0..n }
AB == {97, 98}
RCalls == [op : {"replace", "rreplace"}, s : Over(AB, Depth), t : AB, c : {97, 98, 120}, n : 0..3]
PCalls == [op : {"lpad", "padstr"}, s : Over({97, 45}, 3), n : 0..5, c : {32, 48}] \cup [op : {"trail"}, s : Over({47, 97}, 4)]
          \cup [op : {"padint"}, i : {0, 7, 10, 0 - 3, 12345}, n : 0..7, c : {48, 42}]
NCalls == { x \in [op : {"fixed"}, i : {0, 1, 3, 5, 7, 63, 64, 65, 127, 319, 639, 640, 1023, 0 - 1, 0 - 5, 0 - 96, 0 - 319}, k : {0, 1, 3, 5}, p : 0..3] : TRUE }
          \cup [op : {"sci", "paddbl"}, i : {0, 1, 3, 5, 7, 63, 64, 65, 127, 319, 639, 640, 1023, 1999, 0 - 1, 0 - 5, 0 - 96, 0 - 319}, k : {0, 1, 3, 5}, p : 0..3, n : {0, 6, 12}]
          \cup [op : {"progress"}, i : {0 - 1, 0, 1, 2, 3, 4, 5, 7, 8, 9}, k : {0, 2, 3}]
LCalls == [op : {"tuple"}, l : UNION { [1..m -> {0, 0 - 12}] : m \in 1..7 }] \cup [op : {"arr"}, l : UNION { [1..m -> {5, 0 - 7}] : m \in 0..3 }]
          \cup [op : {"list"}, l : UNION { [1..m -> {5, 0 - 7}] : m \in 0..3 }, d : {<<>>, <<59, 32>>}, pre : {<<>>, <<60>>}, post : {<<>>, <<62, 62>>}]
          \cup [op : {"plist"}, l : UNION { [1..m -> {5, 0 - 7, 100}] : m \in 0..3 }, k : {0, 3}, p : {0, 2}, n : {0, 6}, d : {<<>>, <<59, 32>>}, pre : {<<>>, <<60>>}, post : {<<62>>}]
ECalls == [op : {"subst"}, s : Over({36, 40, 41, 65}, Depth)]
RECURSIVE Cat(_)
Cat(l) == IF l = <<>> THEN <<>> ELSE l[1] \o Cat(Tail(l))
TCalls == [op : {"subst"}, s : { Cat(l) : l \in Over({<<36, 40>>, <<41>>, <<65>>, <<120>>}, Depth) }]
Calls == CASE Mode = "tokens" -> TCalls [] Mode = "replace" -> RCalls [] Mode = "pad" -> PCalls [] Mode = "num" -> NCalls [] Mode = "list" -> LCalls [] Mode = "env" -> ECalls
(* in the environment: A is "$(A)", AA is empty, A( is B                      *)
Env == << [op |-> "setenv", s |-> <<65>>, v |-> <<36, 40, 65, 41>>], [op |-> "setenv", s |-> <<65, 65>>, v |-> <<>>], [op |-> "setenv", s |-> <<65, 40>>, v |-> <<66>>] >>
Init == \E c \in Calls : hist = <<c>>
Next == FALSE /\ UNCHANGED hist
Bound == PrintT("@H " \o ToJson(IF Mode \in {"env", "tokens"} THEN Env \o hist ELSE hist))
(* laws                                                                       *)
E == hist[1]
EnvSet == { <<x.s, x.v>> : x \in { Env[i] : i \in 1..3 } }
Min2(a, b) == IF a < b THEN a ELSE b
Laws == CASE Mode = "replace" ->
               LET x == Text(E)  IN /\ Len(x) = Len(E.s)
                                    /\ (E.t # E.c => Count(x, E.t) = Min2(E.n, Count(E.s, E.t)))
                                    /\ (E.op = "rreplace" => x = Rev(Replace(Rev(E.s), E.t, E.c, E.n)))
                                    /\ (E.t = E.c => x = E.s)
          [] Mode = "pad" -> E.op \in {"lpad", "padstr"} => (LET x == Text(E) IN Len(x) = MaxOf(Len(E.s), E.n) /\ SubSeq(x, Len(x) - Len(E.s) + 1, Len(x)) = E.s)
          [] Mode \in {"env", "tokens"} -> \* text without a complete $(...) is unchanged; nothing defined: nothing changes
               /\ Subst({}, E.s) = E.s
               /\ (Find(E.s, <<36, 40>>, 1) = 0 => Subst(EnvSet, E.s) = E.s)
          [] Mode = "num" -> E.op = "sci" => Len(Text(E)) >= E.p + 7
          [] OTHER -> TRUE
===============================================================================
