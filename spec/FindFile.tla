-------------------------------- MODULE FindFile ------------------------------
(* sm::findFile: a file looked up in the one directory that an environment    *)
(* variable names now.  State: env, variable -> [dir, slash] (a path and      *)
(* whether the variable's value ends with '/'), and nodes, the paths that     *)
(* exist; a path is a sequence of names, a and b are names of files, all      *)
(* others are names of directories.                                           *)
EXTENDS Integers, Sequences, FiniteSets
IsFile(n) == n \in {"a", "b"}
FInit == [env |-> <<>>, nodes |-> { <<>> }]
Prefixes(p) == { SubSeq(p, 1, i) : i \in 0..Len(p) }
IsPrefix(p, q) == Len(p) <= Len(q) /\ SubSeq(q, 1, Len(p)) = p
Put(f, n, v) == [x \in DOMAIN f \cup {n} |-> IF x = n THEN v ELSE f[x]]
None == <<"nowhere">>
Outside == <<"outside">>
(* walks down q from the existing node p; nothing is said about what lies     *)
(* outside the modelled part of the disk                                      *)
RECURSIVE Walk(_, _, _)
Walk(nodes, p, q) ==
  IF q = <<>> THEN p
  ELSE IF p # <<>> /\ IsFile(p[Len(p)]) THEN None
  ELSE IF Head(q) = ".." /\ p = <<>> THEN Outside
  ELSE LET n == IF Head(q) = ".." THEN SubSeq(p, 1, Len(p) - 1) ELSE Append(p, Head(q))
       IN IF n \in nodes THEN Walk(nodes, n, Tail(q)) ELSE None
Exists(nodes, p) == Walk(nodes, <<>>, p) # None
RECURSIVE Join(_)
Join(p) == IF p = <<>> THEN "" ELSE IF Len(p) = 1 THEN p[1] ELSE p[1] \o "/" \o Join(Tail(p))
Full(s, e) == LET v == s.env[e.v] IN (IF v.dir = <<>> THEN "" ELSE "/" \o Join(v.dir)) \o "/" \o Join(e.p)
FNext(s, e) ==
  CASE e.op = "make" -> IF e.r.k = "ok" THEN {[s EXCEPT !.nodes = @ \cup Prefixes(e.p)]} ELSE {}
    [] e.op = "remove" -> IF e.r.k = "ok" THEN {[s EXCEPT !.nodes = { n \in @ : ~IsPrefix(e.p, n) }]} ELSE {}
    [] e.op = "set" -> IF e.r.k = "ok" THEN {[s EXCEPT !.env = Put(@, e.v, [dir |-> e.p, slash |-> e.slash])]} ELSE {}
    [] e.op = "unset" -> IF e.r.k = "ok" THEN {[s EXCEPT !.env = [x \in DOMAIN @ \ {e.v} |-> @[x]]]} ELSE {}
    [] e.op = "find" ->
         IF e.v \in DOMAIN s.env /\ Walk(s.nodes, <<>>, s.env[e.v].dir \o e.p) = Outside THEN {s}
         ELSE IF e.v \in DOMAIN s.env /\ Exists(s.nodes, s.env[e.v].dir \o e.p)
         THEN (IF e.r.k = "found" /\ e.r.path = Full(s, e) THEN {s} ELSE {})
         ELSE (IF e.r.k = "exc" /\ e.r.t = "runtime_error" THEN {s} ELSE {})
    [] OTHER -> {}
===============================================================================
