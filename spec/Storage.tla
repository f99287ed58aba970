-------------------------------- MODULE Storage -------------------------------
(* Files written by save functions onto a disk that may run full.  Contents   *)
(* are numbered.  State: disk, path -> [kind, ids] (contents of the file) or  *)
(* damaged.  Events: save and append (append adds to what is there) with the  *)
(* result ok/exc, need: what the operation writes, cap: what there was room   *)
(* for; load, with the contents found.  short: the system writes less than it *)
(* is asked to, which is no failure.                                          *)
EXTENDS Integers, Sequences, FiniteSets
Damaged == [kind |-> "damaged", ids |-> {}]
SInit == [disk |-> <<>>]
Put(f, n, v) == [x \in DOMAIN f \cup {n} |-> IF x = n THEN v ELSE f[x]]
Archive == {"ama", "append", "named", "stream"}
Family(k) == IF k \in Archive THEN "ama" ELSE k
Content(s, p) == IF p \in DOMAIN s.disk THEN s.disk[p] ELSE [kind |-> "none", ids |-> {}]
(* part: an archive holds a matrix (1), a string (2) or both (0)               *)
Ids(e) == IF Family(e.kind) # "ama" THEN {e.c}
          ELSE (IF e.part # 2 THEN {100 + e.c} ELSE {}) \cup (IF e.part # 1 THEN {200 + e.c} ELSE {})
(* a save either stores everything or raises an exception                     *)
Stored(s, e) ==
  LET old == Content(s, e.p)
      new == CASE e.kind # "append" -> [kind |-> Family(e.kind), ids |-> Ids(e)]
               [] old.kind \in {"none", "ama"} -> [kind |-> "ama", ids |-> old.ids \cup Ids(e)]
               [] OTHER -> Damaged
  IN [s EXCEPT !.disk = Put(@, e.p, new)]
Lost(s, e) == [s EXCEPT !.disk = Put(@, e.p, Damaged)]
SNext(s, e) ==
  CASE e.op = "save" /\ e.nodir -> IF e.r.k = "exc" THEN {s} ELSE {}
    [] e.op = "save" -> IF e.r.cap >= e.r.need THEN (IF e.r.k = "ok" THEN {Stored(s, e)} ELSE {})
                        ELSE (IF e.r.k = "exc" THEN {Lost(s, e)} ELSE {})
    [] e.op = "load" ->
         LET d == Content(s, e.p) IN
         CASE e.nodir \/ d.kind = "none" -> IF e.r.k = "exc" THEN {s} ELSE {}
           [] d.kind = "damaged" \/ d.kind # Family(e.kind) -> {s}
           [] OTHER -> IF e.r.k = "found" /\ { e.r.ids[i] : i \in 1..Len(e.r.ids) } = d.ids THEN {s} ELSE {}
    [] OTHER -> {}
===============================================================================
