---------------------------- MODULE ValueStoreMC ------------------------------
(* All small compositions of value stores: laws that the semantics of the     *)
(* specification has, and histories that question each of them.               *)
EXTENDS ValueStore, Json
CONSTANTS Mode, Depth
VARIABLES st, hist
Tree(c) == [k |-> "", d |-> "", c |-> c]
In(k, d, c) == [k |-> k, d |-> d, c |-> c]
T1 == Tree(<<In("a", "", <<In("b", "1", <<>>)>>), In("b", "x", <<>>)>>)
T2 == Tree(<<In("p", "7", <<In("a", "", <<In("b", "5", <<>>)>>)>>), In("a", "2", <<In("b", "3", <<>>), In("p", "9", <<>>)>>)>>)
Start == << [op |-> "build", t |-> T1, ns |-> ""], [op |-> "build", t |-> T2, ns |-> ""] >>
Ok(c) == c @@ [r |-> [k |-> "ok"]]
Do(s, c) == CHOOSE n \in VStep(s, Ok(c)) : TRUE
RECURSIVE DoAll(_, _)
DoAll(s, h) == IF h = <<>> THEN s ELSE DoAll(Do(s, Head(h)), Tail(h))
Nv(s) == 1..Len(s.vars)
Lays(h) == { i \in 1..Len(h) : h[i].op = "lay" }
(* compositions: each call but addlay makes one more variable                 *)
Layers(s, h) == [op : {"lay"}, l : { <<i, j>> : i \in Nv(s), j \in Nv(s) } \cup {<<>>} \cup { <<i>> : i \in Nv(s) }]
Prefixes(s, h) == [op : {"pre"}, v : Nv(s), mode : {"add", "remove"}, pre : {"p", "p/a", ""}]
Verbose(s, h) == [op : {"ver"}, v : { i \in Nv(s) : s.heap[s.vars[i]].ext }, ext : {TRUE}] \cup [op : {"ver"}, v : Nv(s), ext : {FALSE}]
Flats(s, h) == [op : {"nch"}, v : Nv(s)]
Sub(s, h, keys) == [op : {"child"}, v : Nv(s), key : keys]
Calls(s, h) == CASE Mode = "layers" -> Layers(s, h) \cup Sub(s, h, {"a", "p"}) \cup Flats(s, h) \cup [op : {"pre"}, v : {2}, mode : {"remove", "add"}, pre : {"p"}]
                 [] Mode = "prefix" -> Prefixes(s, h) \cup Sub(s, h, {"p", "p/", "p/a", "a", ""}) \cup Flats(s, h)
                 [] Mode = "verbose" -> Verbose(s, h) \cup Sub(s, h, {"a", "p/a"}) \cup [op : {"lay"}, l : {<<1, 2>>}] \cup [op : {"pre"}, v : Nv(s), mode : {"add"}, pre : {"p"}]
                                          \cup [op : {"echild"}, v : { i \in Nv(s) : s.heap[s.vars[i]].ext }, key : {"a", "p"}]
                 [] OTHER -> {}
Probes == CASE Mode = "prefix" -> {"b", "a/b", "p/a/b", "p/p/a/b", "p", "", "p/a", "pa/b", "p/a/p/a/b"} [] OTHER -> {"b", "a/b", "p/a/b", "a", "p"}
RECURSIVE Seq1(_)
Seq1(S) == IF S = {} THEN <<>> ELSE LET x == CHOOSE y \in S : TRUE IN <<x>> \o Seq1(S \ {x})
Ask(n) == Seq1({ [op |-> "has", v |-> n, path |-> p] : p \in Probes }
          \cup { [op |-> "get", v |-> n, path |-> p, ty |-> "string", def |-> FALSE] : p \in Probes }
          \cup { [op |-> "get", v |-> n, path |-> p, ty |-> "int", def |-> TRUE, x |-> [i |-> 0 - 4]] : p \in Probes })
AskAll(n) == << [op |-> "empty", v |-> n], [op |-> "ext", v |-> n], [op |-> "cansave", v |-> n] >> \o Ask(n)
             \o << [op |-> "tset", root |-> 2, key |-> "p/a/b", ty |-> "string", x |-> [s |-> "new"]] >>
             \o << [op |-> "get", v |-> n, path |-> "p/a/b", ty |-> "string", def |-> FALSE], [op |-> "children", v |-> n] >>
(* handles of two stores over one tree: reads, writes, adds                   *)
X(t) == [s |-> t]
U(t) == [string |-> X(t), int |-> [i |-> 0], bool |-> [i |-> 0], double |-> [bits |-> ""]]
HCalls(s, h) == [op : {"get"}, v : 1..3, path : {"b", "a/b"}, ty : {"string"}, def : {FALSE}]
           \cup [op : {"get"}, v : {1, 3}, path : {"b"}, ty : {"string"}, def : {TRUE}, x : {X("d")}]
           \cup [op : {"add"}, v : {1, 3}, path : {"b", "c"}, ty : {"string"}, x : {X("i")}]
           \cup [op : {"hget"}, h : 1..2] \cup { [op |-> "hupd", h |-> h1, x |-> U("u")] : h1 \in 1..2 }
           \cup [op : {"tset"}, root : {1}, key : {"a/b"}, ty : {"string"}, x : {X("t")}]
           \cup [op : {"children"}, v : {1}]
HStart == << [op |-> "build", t |-> T1, ns |-> ""], [op |-> "child", v |-> 1, key |-> "a"], [op |-> "child", v |-> 1, key |-> "/a"] >>
HEnd == << [op |-> "hget", h |-> 1], [op |-> "hget", h |-> 2], [op |-> "get", v |-> 1, path |-> "a/b", ty |-> "string", def |-> FALSE], [op |-> "has", v |-> 1, path |-> "c"] >>
(* candidate lists                                                            *)
Entries == {"a/b", "no", "!a/b", "!no", "!b", "text"}
FEnd(l) == << [op |-> "find", v |-> 1, paths |-> l, ty |-> "string", def |-> FALSE, quiet |-> FALSE], [op |-> "find", v |-> 1, paths |-> l, ty |-> "string", def |-> TRUE, x |-> X("d"), quiet |-> FALSE],
              [op |-> "find", v |-> 2, paths |-> l, ty |-> "string", def |-> TRUE, x |-> X("d"), quiet |-> FALSE] >>
T3 == Tree(<<In("text", "t", <<>>), In("a", "", <<In("b", "v", <<>>)>>)>>)
FStart == << [op |-> "build", t |-> T3, ns |-> ""], [op |-> "build", t |-> T1, ns |-> ""] >>

Begin == CASE Mode = "handles" -> HStart [] Mode = "find" -> FStart [] OTHER -> Start
Init == hist = <<>> /\ st = DoAll(VInit, Begin)
Next == CASE Mode = "handles" -> st' = st /\ \E c \in HCalls(st, hist) : hist' = Append(hist, c)
          [] Mode = "find" -> st' = st /\ \E x \in Entries : hist' = Append(hist, x)
          [] OTHER -> \E c \in Calls(st, hist) : hist' = Append(hist, c) /\ st' = Do(st, c)
Out == CASE Mode = "handles" -> Begin \o hist \o HEnd
         [] Mode = "find" -> Begin \o FEnd(hist)
         [] OTHER -> Begin \o hist \o AskAll(Len(st.vars))
Bound == IF Len(hist) < Depth THEN IF Mode = "find" /\ hist # <<>> THEN PrintT("@H " \o ToJson(Out)) ELSE TRUE
         ELSE PrintT("@H " \o ToJson(Out)) /\ FALSE

(* ---- laws, for the newest store and every key asked for                    *)
Same(s, a, p, b, q) == /\ Knows(s, a, p) = Knows(s, b, q)
                       /\ \A ty \in {"string", "int"}, d \in BOOLEAN : [Look(s, a, ty, p, d) EXCEPT !.t = ""] = [Look(s, b, ty, q, d) EXCEPT !.t = ""]
LayerLaw(s, o, id, p) ==
  LET know == { i \in 1..Len(o.l) : Knows(s, o.l[i], p) } IN
  /\ Knows(s, id, p) = (know # {})
  /\ know # {} => LET i == CHOOSE j \in know : \A k \in know : j <= k IN Look(s, id, "string", p, FALSE) = Look(s, o.l[i], "string", p, FALSE)
  /\ know = {} => Look(s, id, "string", p, TRUE).x = "def" /\ Look(s, id, "string", p, FALSE).x = "exc"
PreLaw(s, o, id, p) ==
  IF o.mode = "add" THEN Same(s, id, p, o.b, o.pre \o p)
  ELSE /\ Same(s, id, o.pre \o p, o.b, p)
       /\ Knows(s, id, p) => StartsWith(o.pre, "/") \/ Pre(o.pre, p) \/ p \o "/" = o.pre
ChildLaw(s, id, key, p) == LET c == Child(s, id, key) IN Knows(s, id, key) => Same(c.s, c.id, p, id, key \o "/" \o p)
Laws == LET id == Len(st.heap)  o == st.heap[id] IN
  (Mode \in {"layers", "prefix", "verbose"} /\ hist # <<>>) =>
    \A p \in Probes :
      /\ o.kind = "lay" => LayerLaw(st, o, id, p)
      /\ o.kind = "pre" => PreLaw(st, o, id, p)
      /\ o.kind \in {"ver", "nch"} => Same(st, id, p, o.b, p)
      /\ \A key \in {"a", "p"} : ChildLaw(st, id, key, p)
===============================================================================
