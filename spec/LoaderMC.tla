------------------------------- MODULE LoaderMC -------------------------------
(* All parent graphs over three files; laws of the load order; generator.     *)
EXTENDS Loader, Json
CONSTANTS Depth
VARIABLES g, list, hist
F == {"a.info", "b.info", "c.info"}
Opts == {"", "a.info", "b.info", "c.info", "b.info,c.info", "c.info!", "a.info,b.info!"}
Lists == { <<"a.info">>, <<"b.info", "a.info">>, <<"a.info!">>, <<"a.info", "b.info!">>,
           <<"c.info", "", "a.info", "b.info">>, <<"a.info", "a.info!">> }
Tree(f, par, nested, own) ==
  LET kids == (IF par = "" THEN <<>> ELSE << Leaf("parents", par) >>) \o << Leaf("k", f), [k |-> "g", d |-> "", c |-> << Leaf("k", f) >>] >>
              \o (IF own THEN << Leaf(f, "1") >> ELSE <<>>)
  IN IF nested THEN [k |-> "", d |-> "", c |-> << [k |-> "top", d |-> f, c |-> kids] >>] ELSE [k |-> "", d |-> "", c |-> kids]
FilesOf == [p \in { <<"d", f>> : f \in F } |-> [good |-> TRUE, t |-> Tree(p[2], g.par[p[2]], g.nested, g.own)]]
S == [InitState EXCEPT !.files = FilesOf, !.dirs = @ \cup {<<"d">>}, !.search = <<"@/d">>]
Result == LoadAll(S, list, "", Start)
Init == /\ g \in [par : [F -> Opts], nested : BOOLEAN, own : BOOLEAN] /\ list \in Lists /\ hist = 0
Next == hist < Depth /\ hist' = hist + 1 /\ UNCHANGED <<g, list>>
(* which files a file names as its parents, without the marks                 *)
Par(f) == LET n == Names(g.par[f], 1, "") IN { x \in F : \E i \in 1..Len(n) : n[i] # "" /\ Ch(n[i], 1) = Ch(x, 1) }
Reach1(R) == R \cup { <<x, z>> \in F \X F : \E y \in F : <<x, y>> \in R /\ <<y, z>> \in R }
Closure == LET R == { <<x, y>> \in F \X F : y \in Par(x) } IN Reach1(Reach1(R))
Defines(f, p) == Has(FilesOf[<<"d", f>>].t, p)
LoadLaws(r, files, closure) ==
  LET inits == [f \in F |-> { i \in 1..Len(r.m) : r.m[i] = <<"d", f>> }] IN
  \* every file is merged at most twice: as such and as an update
  /\ \A f \in F : Cardinality(inits[f]) <= 2
  \* every key has the value of the last merged file that defines it
  /\ r.x = "" => \A p \in Paths(r.t) :
       LET ds == { i \in 1..Len(r.m) : Has(files[r.m[i]].t, p) } IN
       /\ ds # {} /\ At(r.t, p).d = At(files[r.m[CHOOSE i \in ds : \A j \in ds : j <= i]].t, p).d
  \* nothing but updates can be refused, and only when files have keys of their own
  /\ (r.x = "notfound" => (g.own \/ g.nested \/ \E f \in F : g.par[f] # "")) /\ r.x # "other"
  \* parents come first
  /\ (r.x = "" /\ \A f \in F : <<f, f>> \notin closure) => \A f \in F : \A q \in Par(f) : \A i \in inits[f] : \E j \in inits[q] : j < i
Out == << [op |-> "mkdir", p |-> <<"d">>] >>
       \o [i \in 1..3 |-> LET f == <<"a.info", "b.info", "c.info">>[i] IN [op |-> "write", p |-> <<"d", f>>, good |-> TRUE, t |-> FilesOf[<<"d", f>>].t]]
       \o << [op |-> "paths", search |-> <<"@/d">>, infix |-> <<>>], [op |-> "load", names |-> list, comma |-> FALSE] >>
Bound == IF hist < Depth THEN TRUE ELSE PrintT("@H " \o ToJson(Out)) /\ FALSE
Apply3(Op(_, _, _), x) == Op(x[1], x[2], x[3])
Laws == hist = 0 => \A x \in { <<Result, FilesOf, Closure>> } : Apply3(LoadLaws, x)
===============================================================================
