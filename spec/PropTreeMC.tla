----------------------------- MODULE PropTreeMC -------------------------------
(* Laws of the tree operations on all small trees, and generators.            *)
EXTENDS PropTree, Json
CONSTANTS Mode, Depth
VARIABLES st, hist
Ks == {"a", "b"}
Ts == {"", "1"}
L0(k) == { Leaf(k, d) : d \in Ts }
Sets(S) == {<<>>} \cup { <<x>> : x \in S["a"] } \cup { <<x>> : x \in S["b"] } \cup { <<x, y>> : x \in S["a"], y \in S["b"] } \cup { <<y, x>> : x \in S["a"], y \in S["b"] }
L1(k) == { [k |-> k, d |-> d, c |-> c] : d \in Ts, c \in {<<>>} \cup { <<x>> : x \in L0("a") \cup L0("b") } }
Trees == { [k |-> "", d |-> "", c |-> c] : c \in Sets([a |-> L1("a"), b |-> L0("b")]) }
Small == { [k |-> "", d |-> "", c |-> c] : c \in Sets([a |-> L0("a"), b |-> L0("b")]) \cup { <<x>> : x \in L1("a") } }

(* P03: laws of merging *)
Text(t, p) == At(t, p).d
MergeLaws(a, b) ==
  LET m == Merge(a, b, TRUE, FALSE).t  g == Merge(a, b, TRUE, TRUE).t  u == Merge(a, b, FALSE, FALSE) IN
  /\ Paths(m) = Paths(a) \cup Paths(b)
  /\ \A p \in Paths(m) : Text(m, p) = IF p \in Paths(b) THEN Text(b, p) ELSE Text(a, p)
  /\ Merge(m, b, TRUE, FALSE).t = m
  /\ \A p \in Paths(g) : Text(g, p) = IF p \in Paths(b) /\ ~Blank(Text(b, p)) THEN Text(b, p) ELSE IF p \in Paths(a) THEN Text(a, p) ELSE ""
  /\ u.x = (\E p \in Paths(b) : p \notin Paths(a))
  /\ Paths(u.t) = Paths(a) /\ (~u.x => u.t = m)
  /\ Distinct(m)
(* P05: every tree is denoted by its nested text *)
RECURSIVE Show(_), Join(_, _)
Join(c, i) == IF i > Len(c) THEN "" ELSE (IF i > 1 THEN "," ELSE "") \o Show(c[i]) \o Join(c, i + 1)
Show(n) == IF n.c = <<>> THEN n.k \o (IF n.d = "" THEN "" ELSE "=" \o n.d)
           ELSE (IF n.d = "" THEN "" ELSE n.k \o "=" \o n.d \o ",") \o n.k \o "{" \o Join(n.c, 1) \o "}"
InlineLaws(t) == Inline(Join(t.c, 1)) = [ok |-> TRUE, t |-> t]

Keys == {"a", "/a", "a/b", "", "b/"}
X(s) == [s |-> s]
Calls(n) == [op : {"set"}, v : 1..n, key : Keys, ty : {"string"}, x : {X("1")}]
         \cup [op : {"get"}, v : 1..n, key : Keys, ty : {"string"}, const : {TRUE}]
         \cup [op : {"getd"}, v : 1..n, key : {"a", "a/b"}, ty : {"string"}, x : {X("2")}, const : BOOLEAN]
         \cup [op : {"exists"}, v : 1..n, key : {"a/b", "/a/", ""}]
         \cup [op : {"children"}, v : 1..n, const : {FALSE}]
         \cup [op : {"view"}, v : 1..n, ns : {"a", "/b", ""}, via : {0}] \cup [op : {"copy"}, v : 1..n]
Views(h) == 2 + Cardinality({ i \in 1..Len(h) : h[i].op \in {"view", "copy"} })
Start == << [op |-> "new", ns |-> ""], [op |-> "view", v |-> 1, ns |-> "a", via |-> 1] >>
Items == {"a=1", "a=2", "b=3", "a/b=4", "b/a=5", "a{b=6,a=7}", "a/b{a=8}", "b{}", "", "a", "x.y=1.5", "a{b{a=1},b/b=2}"}
Broken == {"}", "a{", "a=\"1\"", "a{b=1", "b=1}"}

Init == hist = <<>> /\ st \in CASE Mode \in {"merge"} -> Trees \X Small
                                [] Mode = "inline" -> { <<t, t>> : t \in Trees }
                                [] Mode = "forms" -> { <<t, t>> : t \in Trees }
                                [] OTHER -> { <<Empty, Empty>> }
Next == /\ UNCHANGED st
        /\ CASE Mode = "calls" -> \E c \in Calls(Views(hist)) : hist' = Append(hist, c)
             [] Mode = "merge" -> \E c, i \in BOOLEAN : hist' = Append(hist, <<c, i>>)
             [] Mode \in {"inline", "items"} -> \E x \in Items \cup Broken : hist' = Append(hist, x)
             [] Mode = "forms" -> hist' = Append(hist, "")
Out == CASE Mode = "calls" -> Start \o hist \o << [op |-> "get", v |-> 1, key |-> "/a/b", ty |-> "string", const |-> FALSE] >>
         [] Mode = "merge" -> << [op |-> "build", t |-> st[1], ns |-> ""], [op |-> "build", t |-> st[2], ns |-> ""],
                                 [op |-> "update", v |-> 1, w |-> 2, create |-> hist[1][1], ignore |-> hist[1][2]] >>
         [] Mode = "inline" -> <<Join(st[1].c, 1)>>
         [] Mode = "items" -> hist
         [] Mode = "forms" -> <<st[1]>>
Bound == IF Len(hist) < Depth THEN TRUE ELSE PrintT("@H " \o ToJson(Out)) /\ FALSE
Laws == CASE Mode = "merge" -> MergeLaws(st[1], st[2]) [] Mode = "inline" -> InlineLaws(st[1]) [] OTHER -> TRUE
===============================================================================
