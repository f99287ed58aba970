------------------------------- MODULE StorageMC ------------------------------
(* Every kind of file, with every place where the space may end, followed by  *)
(* a load, another save and a load (Mode gen); or the model of the disk       *)
(* itself with all outcomes (Mode mc).                                        *)
EXTENDS Storage, Json, TLC
CONSTANTS Mode, Depth
VARIABLES hist, st
Kinds == {"ama", "append", "named", "stream", "xml", "xmlh", "ini", "info", "json", "vs", "bin", "txt", "xser"}
Sizes == 0..(Depth - 1)
Ends == { <<"all", 0>>, <<"abs", 0>>, <<"abs", 1>>, <<"end", -1>>, <<"end", 0>>, <<"end", 1>>, <<"part", 500>>, <<"end", -9>> }
S(k, p, c, a, short, part) == [op |-> "save", kind |-> k, p |-> p, c |-> c, part |-> part, at |-> a[1], n |-> a[2], short |-> short, nodir |-> FALSE, alt |-> FALSE]
L(k, p) == [op |-> "load", kind |-> k, p |-> p, nodir |-> FALSE, alt |-> FALSE]
Init == /\ st = SInit
        /\ \/ Mode = "gen" /\ \E k \in Kinds, c \in Sizes, a \in Ends, b \in BOOLEAN, z \in 0..2 : (z > 0 => Family(k) = "ama") /\
                hist = << S(k, 1, c, a, b, z), L(k, 1), S(k, 1, (c + 1) % Depth, <<"all", 0>>, b, z), L(k, 1) >>
           \/ Mode = "mc" /\ hist = <<>>
(* the model: a save of size need c on a disk with room cap                   *)
Reply(need, cap) == [k |-> IF cap >= need THEN "ok" ELSE "exc", need |-> need, cap |-> cap]
Next == /\ Mode = "mc" /\ Len(hist) < Depth
        /\ \E k \in {"ama", "append", "info"}, p \in 1..2, c \in 1..2, cap \in 0..2, z \in 0..1 : (k = "info" => z = 0) /\
             LET e == [op |-> "save", kind |-> k, p |-> p, c |-> c, part |-> z, nodir |-> FALSE, r |-> Reply(c, cap)] IN
             hist' = Append(hist, e) /\ st' \in SNext(st, e)
Bound == Mode = "gen" => PrintT("@H " \o ToJson(hist))
(* what a file holds was saved completely, last; an append keeps the rest     *)
Done(p) == { i \in 1..Len(hist) : hist[i].p = p }
Last(p) == CHOOSE i \in Done(p) : \A j \in Done(p) : j <= i
Laws == Mode = "mc" => \A p \in DOMAIN st.disk : LET d == st.disk[p] e == hist[Last(p)] IN
  /\ Done(p) # {}
  /\ d # Damaged => e.r.k = "ok" /\ Ids(e) \subseteq d.ids /\ (e.kind # "append" => d.ids = Ids(e))
  /\ e.r.k = "exc" => d = Damaged
===============================================================================
