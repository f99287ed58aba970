------------------------------ MODULE EigenFnsMC ------------------------------
(* All calls with small matrices and numbers, and the laws of the relations.  *)
EXTENDS EigenFns, Json, TLC
CONSTANTS Mode, Depth
VARIABLES hist
S == {0 - 1, 0, 2}
Mats(V, n, k) == [1..n -> [1..k -> V]]
Seqs(f) == f
N(q, k) == [s |-> "num", q |-> q, k |-> k]
Nums == { N(q, k) : q \in {0 - 99, 0 - 50, 0 - 49, 0, 1, 49, 50, 98, 99}, k \in {0, 3, 5, 8, 17} }
        \cup {[s |-> s, q |-> 0, k |-> 0] : s \in {"inf", "ninf", "nan"}}
Ents == { N(q, 0) : q \in {0 - 1, 0, 8, 9} } \cup {[s |-> s, q |-> 0, k |-> 0] : s \in {"inf", "ninf", "nan"}}
Ent2 == { N(q, 0) : q \in {8, 9} } \cup {[s |-> "nan", q |-> 0, k |-> 0]}
Shape == (0..2) \X (0..2)
Calls == CASE Mode = "sqrt" -> UNION { { [op |-> "sqrt", n |-> n, w |-> k, g |-> g] : g \in Mats(S, n, k) } : n \in 0..3, k \in 0..(IF Depth > 2 THEN 2 ELSE 1) }
                               \cup { [op |-> "sqrt", n |-> 2, w |-> 2, g |-> g] : g \in Mats((0 - 2)..2, 2, 2) }
           [] Mode = "diff" -> UNION { { [op |-> "diff", n |-> n, m |-> m, q |-> q, b |-> b, cc |-> [i \in 1..m |-> i], x |-> x, dd |-> [i \in 1..n |-> [j \in 1..n |-> IF i = j THEN 1 ELSE 0]]]
                                         : q \in [1..m -> Mats({0, 1}, n, n)], b \in Mats({0, 3}, m, n), x \in [1..n -> {0, 0 - 2, 5}] } : n \in 0..2, m \in 0..1 }
           [] Mode = "finite" -> UNION { { [op |-> "finite", rr |-> s[1], c |-> s[2], v |-> v] : v \in Mats({0, 1, 2, 3}, s[1], s[2]) } : s \in Shape }
           [] Mode = "rel" -> [op : {"rel"}, a : Nums, b : Nums, p : {0, 1, 8, 80, 400}]
           [] Mode = "mat" -> UNION { { [op |-> "mat", f |-> f, rr |-> 1, c |-> 1, r2 |-> 1, c2 |-> 1, a |-> <<<<v>>>>, b |-> <<<<w>>>>, p |-> p] : f \in {"eq", "near", "enear", "mx", "fin"}, v \in Ents, w \in Ents } : p \in {0, 8, 80} }
                              \cup { [op |-> "mat", f |-> f, rr |-> s[1], c |-> s[2], r2 |-> t[1], c2 |-> t[2], a |-> [i \in 1..s[1] |-> [j \in 1..s[2] |-> N(8, 0)]], b |-> [i \in 1..t[1] |-> [j \in 1..t[2] |-> N(8, 0)]], p |-> 8]
                                      : s \in Shape, t \in Shape, f \in {"eq", "near", "enear", "mx", "fin"} }
                              \cup { [op |-> "mat", f |-> f, rr |-> 2, c |-> 2, r2 |-> 2, c2 |-> 2, a |-> [i \in 1..2 |-> [j \in 1..2 |-> N(8, 0)]], b |-> b, p |-> 4] : f \in {"eq", "near", "enear", "mx"}, b \in Mats(Ent2, 2, 2) }
Init == \E c \in Calls : hist = <<c>>
Next == FALSE /\ UNCHANGED hist
Bound == PrintT("@H " \o ToJson(hist))
E == hist[1]
Laws == CASE Mode = "sqrt" -> \* symmetric, and every 2x2 minor is non-negative (Cauchy-Schwarz)
               LET a == Gram(E.g, E.n, E.w) IN \A i, j \in 1..E.n : a[i][j] = a[j][i] /\ a[i][i] >= 0 /\ a[i][i] * a[j][j] >= a[i][j] * a[i][j]
          [] Mode = "rel" -> /\ Rel(E.a, E.b, E.p) = Rel(E.b, E.a, E.p)
                             /\ (E.a = E.b /\ E.a.s # "nan") => Rel(E.a, E.b, E.p) = {TRUE}
                             /\ \A p \in {0, 1, 8, 80} : (p <= E.p /\ Rel(E.a, E.b, p) = {TRUE}) => TRUE \in Rel(E.a, E.b, E.p)
          [] Mode = "diff" -> \* the derivative is what the function changes by, up to the second order
               \A j \in 1..E.n, i \in 1..E.m :
                  LET F(x) == Sum([a \in 1..E.n |-> Sum([b \in 1..E.n |-> E.q[i][a][b] * x[a] * x[b]])]) + Sum([a \in 1..E.n |-> E.b[i][a] * x[a]])
                  IN F([E.x EXCEPT ![j] = @ + 1]) - F([E.x EXCEPT ![j] = @ - 1]) = 2 * Jac(E)[i][j]
          [] OTHER -> TRUE
===============================================================================
