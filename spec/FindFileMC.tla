------------------------------ MODULE FindFileMC ------------------------------
(* All histories of settings and changes of the disk, each followed by every  *)
(* look-up: the model's laws, and the histories to run.                       *)
EXTENDS FindFile, Json, TLC
CONSTANTS Mode, Depth
VARIABLES hist, st
Vars == {"VFA", "VFA_B"}
Names == { <<"a">>, <<"d", "a">>, <<"d">>, <<"..", "a">>, <<"d", "..", "a">>, <<"a", "..", "a">> }
Ok == [k |-> "ok"]
Steps == { [op |-> "make", p |-> p] : p \in { <<"a">>, <<"d", "a">>, <<"e", "a">>, <<"d", "e">> } }
    \cup { [op |-> "remove", p |-> p] : p \in { <<"a">>, <<"d">>, <<"d", "a">> } }
    \cup { [op |-> "set", v |-> v, p |-> p, slash |-> b] : v \in Vars, p \in { <<>>, <<"d">>, <<"e">> }, b \in BOOLEAN }
    \cup { [op |-> "unset", v |-> v] : v \in Vars }
Init == hist = <<>> /\ st = FInit
Res(e) == [x \in DOMAIN e \cup {"r"} |-> IF x = "r" THEN Ok ELSE e[x]]
Next == Len(hist) < Depth /\ \E e \in Steps : hist' = Append(hist, e) /\ st' \in FNext(st, Res(e))
RECURSIVE All(_)
All(S) == IF S = {} THEN <<>> ELSE LET x == CHOOSE x \in S : TRUE IN <<x>> \o All(S \ {x})
Finds == All({ [op |-> "find", v |-> v, p |-> p] : v \in Vars, p \in Names })
Bound == Mode = "gen" => (Len(hist) = Depth => PrintT("@H " \o ToJson(hist \o Finds)))
(* directories of existing nodes exist; what is found exists under the        *)
(* variable's directory and does not depend on the other variable             *)
Laws == /\ \A n \in st.nodes : Prefixes(n) \subseteq st.nodes
        /\ \A n \in st.nodes : Exists(st.nodes, n) /\ (n # <<>> => Exists(st.nodes, n \o <<"..">>) = ~IsFile(n[Len(n)]))
        /\ \A v \in DOMAIN st.env, p \in Names :
             LET e == [op |-> "find", v |-> v, p |-> p]
                 R == { [k |-> "found", path |-> Full(st, e)], [k |-> "exc", t |-> "runtime_error"] }
                 Ans(s) == { r \in R : FNext(s, [op |-> "find", v |-> v, p |-> p, r |-> r]) # {} }
             IN /\ (Cardinality(Ans(st)) = 2) = (st.env[v].dir = <<>> /\ p[1] = "..")
                /\ Ans(st) # {}
                /\ Ans(st) = Ans([st EXCEPT !.env = [x \in {v} |-> @[x]]])
===============================================================================
