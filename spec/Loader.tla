-------------------------------- MODULE Loader --------------------------------
(* sm::BoostPropertyTreeLoader over a small file system.                      *)
(* Paths are texts; "@" stands for the root of the scratch file system, the   *)
(* working directory is @/w.                                                  *)
EXTENDS PTree
InitState == [files |-> <<>>, dirs |-> {<<>>, <<"w">>}, search |-> <<>>, infix |-> <<>>]
NoFile == [good |-> FALSE, t |-> Empty]
(* walking a path: every component but the last must be a directory           *)
RECURSIVE Walk(_, _, _)
Walk(s, at, cs) ==
  IF cs = <<>> THEN [ok |-> at \in s.dirs \/ at \in DOMAIN s.files, p |-> at]
  ELSE LET c == Head(cs) IN
       IF at \notin s.dirs \/ (c = ".." /\ at = <<>>) THEN [ok |-> FALSE, p |-> <<>>]
       ELSE Walk(s, CASE c \in {"", "."} -> at [] c = ".." -> SubSeq(at, 1, Len(at) - 1) [] OTHER -> Append(at, c), Tail(cs))
Locate(s, path) == IF StartsWith(path, "@") THEN Walk(s, <<>>, Comps(SubSeq(path, 2, Len(path)))) ELSE Walk(s, <<"w">>, Comps(path))
Exists(s, path) == Locate(s, path).ok
RECURSIVE DirOf(_)
DirOf(path) == IF path = "" \/ EndsWith(path, "/") THEN path ELSE DirOf(SubSeq(path, 1, Len(path) - 1))
(* the file a name denotes in the list (rel = "") or among the parents of rel *)
Candidates(s, path) == [i \in 1..(Len(s.search) * Len(s.infix)) |->
  LET b == s.search[((i - 1) \div Len(s.infix)) + 1]  x == s.infix[((i - 1) % Len(s.infix)) + 1]
  IN b \o "/" \o (IF x = "" THEN "" ELSE x \o "/") \o path]
Infixed(s) == IF s.infix = <<>> THEN [s EXCEPT !.infix = <<"">>] ELSE s
Resolve(s, path, rel) ==
  LET near == IF rel = "" THEN path ELSE DirOf(rel) \o path
      cs == Candidates(Infixed(s), path)
      found == { i \in 1..Len(cs) : Exists(s, cs[i]) }
  IN IF s.search = <<>> \/ StartsWith(path, "@") THEN path
     ELSE IF Len(path) > 1 /\ Ch(path, 1) = "." /\ (Ch(path, 2) = "/" \/ (Len(path) > 2 /\ SubSeq(path, 1, 3) = "../")) /\ Exists(s, near) THEN near
     ELSE IF found = {} THEN cs[1] ELSE cs[CHOOSE i \in found : \A j \in found : i <= j]
RECURSIVE Names(_, _, _)
Names(s, i, cur) == IF i > Len(s) THEN <<cur>> ELSE IF Ch(s, i) = "," THEN <<cur>> \o Names(s, i + 1, "") ELSE Names(s, i + 1, cur \o Ch(s, i))
(* the parents a file names: its key "parents", or that of its first group    *)
ParentsOf(t) == LET top == IF Has(t, <<"parents">>) THEN At(t, <<"parents">>).d ELSE "" IN
                IF top # "" \/ t.c = <<>> THEN top
                ELSE IF Has(t.c[1], <<"parents">>) THEN At(t.c[1], <<"parents">>).d ELSE ""
Start == [x |-> "", set |-> FALSE, t |-> Empty, ign |-> {}, m |-> <<>>]
Into(a, f, t, upd) == IF ~a.set THEN [a EXCEPT !.set = TRUE, !.t = t, !.m = Append(@, f)]
                      ELSE LET g == Merge(a.t, t, ~upd, FALSE) IN
                           IF g.x THEN [a EXCEPT !.x = "notfound", !.m = Append(@, f)] ELSE [a EXCEPT !.t = g.t, !.m = Append(@, f)]
RECURSIVE LoadOne(_, _, _, _), LoadAll(_, _, _, _)
LoadOne(s, name, rel, a) ==
  LET upd == EndsWith(name, "!")
      full == Resolve(s, IF upd THEN SubSeq(name, 1, Len(name) - 1) ELSE name, rel)
      f == Locate(s, full)
  IN IF ~f.ok \/ f.p \notin DOMAIN s.files THEN [a EXCEPT !.x = "other"]
     ELSE IF <<f.p, upd>> \in a.ign THEN a
     ELSE IF ~s.files[f.p].good THEN [a EXCEPT !.x = "other"]
     ELSE LET t == s.files[f.p].t
              b == LoadAll(s, Names(ParentsOf(t), 1, ""), full, [a EXCEPT !.ign = @ \cup {<<f.p, upd>>}])
          IN IF b.x # "" THEN b ELSE Into(b, f.p, t, upd)
LoadAll(s, names, rel, a) == IF names = <<>> \/ a.x # "" THEN a
                             ELSE LoadAll(s, Tail(names), rel, IF Head(names) = "" THEN a ELSE LoadOne(s, Head(names), rel, a))
Load(s, e) == LET a == LoadAll(s, e.names, "", Start) IN
              IF a.x # "" THEN e.r.k = "exc" /\ (a.x = "notfound" => e.r.t = "notfound")
              ELSE e.r.k = "tree" /\ e.r.t = a.t /\ e.r.m = a.m
Next1(s, e) ==
  CASE e.op = "mkdir" -> {[s EXCEPT !.dirs = @ \cup {e.p}]}
    [] e.op = "write" -> {[s EXCEPT !.files = (e.p :> [good |-> e.good, t |-> e.t]) @@ [k \in DOMAIN @ \ {e.p} |-> @[k]]]}
    [] e.op = "remove" -> {[s EXCEPT !.files = [k \in DOMAIN @ \ {e.p} |-> @[k]]]}
    [] e.op = "paths" -> {[s EXCEPT !.search = e.search, !.infix = e.infix]}
    [] e.op = "load" -> IF Load(s, e) THEN {s} ELSE {}
    [] e.op = "resolve" -> LET f == Locate(s, Resolve(s, e.path, e.rel)) IN
                           IF e.r.k = "path" /\ e.r.ok = f.ok /\ (f.ok => e.r.p = f.p) THEN {s} ELSE {}
===============================================================================
