------------------------------ MODULE MatricesMC ------------------------------
(* Sequences of matrices of all types and small shapes, written to an archive *)
(* or a file and read back with every type that may read them.                *)
EXTENDS Matrices, Json
CONSTANTS Depth, Mode
VARIABLES hist
Els(sc, n, k) == [i \in 1..n |-> IF sc = "c" THEN ToString(k + i) \o "i" \o ToString(0 - i) ELSE ToString(k + i)]
Rows(t) == IF t.r = F THEN {0, 1, 2, 3} ELSE {t.r}
Cols(t) == IF t.c = F THEN {0, 1, 2, 3} ELSE {t.c}
Mats(n, k) == LET t == Types[n] IN { [r |-> r, c |-> c, d |-> Els(t.sc, r * c, k)] : r \in Rows(t), c \in Cols(t) }
Old(n) == LET t == Types[n] r == IF t.r = F THEN 2 ELSE t.r c == IF t.c = F THEN 3 ELSE t.c IN [r |-> r, c |-> c, d |-> Els(t.sc, r * c, 50)]
(* one item, every pair of types *)
OneFile(n, m, u, f, g) ==
  << [op |-> "set", ty |-> n, v |-> m], [op |-> "fsave", name |-> "a", f |-> f, ty |-> n, tag |-> g],
     [op |-> "set", ty |-> u, v |-> Old(u)], [op |-> "fload", name |-> "a", f |-> f, ty |-> u, tag |-> g],
     [op |-> "fload", name |-> "b", f |-> f, ty |-> u, tag |-> g], [op |-> "show", ty |-> n] >>
OneArch(n, m, u, f) ==
  << [op |-> "set", ty |-> n, v |-> m], [op |-> "create", f |-> f], [op |-> "save", ty |-> n], [op |-> "open"],
     [op |-> "set", ty |-> u, v |-> Old(u)], [op |-> "load", ty |-> u], [op |-> "show", ty |-> u] >>
(* the first item must not disturb the second *)
TwoArch(n, m, n2, m2, f) ==
  << [op |-> "create", f |-> f], [op |-> "set", ty |-> n, v |-> m], [op |-> "save", ty |-> n], [op |-> "set", ty |-> n2, v |-> m2], [op |-> "save", ty |-> n2], [op |-> "open"],
     [op |-> "set", ty |-> n, v |-> Old(n)], [op |-> "set", ty |-> n2, v |-> Old(n2)], [op |-> "load", ty |-> n], [op |-> "load", ty |-> n2], [op |-> "show", ty |-> n] >>
Formats == {"text", "binary", "xml"}
Init == hist = <<>>
Next ==
  /\ hist = <<>>
  /\ \/ Mode = "file" /\ \E n, u \in Names : \E m \in Mats(n, 1), f \in Formats, g \in {"-", "", "m"} : Readable(m, Types[n], Types[u]) /\ (f = "xml" \/ g = "-") /\ hist' = OneFile(n, m, u, f, g)
     \/ Mode = "one" /\ \E n, u \in Names : \E m \in Mats(n, 1), f \in Formats : Readable(m, Types[n], Types[u]) /\ hist' = OneArch(n, m, u, f)
     \/ Mode = "two" /\ \E n, n2 \in Names : \E m \in Mats(n, 1), m2 \in Mats(n2, 20), f \in Formats : n # n2 /\ hist' = TwoArch(n, m, n2, m2, f)
Bound == IF hist = <<>> THEN TRUE ELSE PrintT("@H " \o ToJson(hist)) /\ FALSE
(* a matrix fits a type exactly when it is one of the type's values *)
Laws == hist = <<>> => \A n, u \in {"d23", "d31", "dX3", "d2X", "d1X", "dXX", "d22", "dX1"} : \A m \in Mats(n, 1) : Fits(m, Types[u]) <=> \E w \in Mats(u, 5) : w.r = m.r /\ w.c = m.c
===============================================================================
