------------------------------- MODULE Matrices -------------------------------
(* Serialisation of Eigen matrices (sm_eigen) into archives and files         *)
(* (sm_boost).  A matrix is [r, c, d]: rows, columns, elements row by row (as *)
(* texts).  There is one variable per type.  A type fixes its dimensions or   *)
(* leaves them free (-1), and has a scalar, a storage order and a kind.       *)
EXTENDS Integers, Sequences, FiniteSets, TLC
Ty(r, c, sc, ord, kind) == [r |-> r, c |-> c, sc |-> sc, ord |-> ord, kind |-> kind]
F == 0 - 1
Types ==
  [d23 |-> Ty(2, 3, "d", "c", "m"), d31 |-> Ty(3, 1, "d", "c", "m"), d14 |-> Ty(1, 4, "d", "c", "m"), d22 |-> Ty(2, 2, "d", "c", "m"), dX3 |-> Ty(F, 3, "d", "c", "m"), dX1 |-> Ty(F, 1, "d", "c", "m"),
   d2X |-> Ty(2, F, "d", "c", "m"), d1X |-> Ty(1, F, "d", "c", "m"), dXX |-> Ty(F, F, "d", "c", "m"), dMM |-> Ty(F, F, "d", "c", "m"),
   rXX |-> Ty(F, F, "d", "r", "m"), r23 |-> Ty(2, 3, "d", "r", "m"), r2X |-> Ty(2, F, "d", "r", "m"), rX3 |-> Ty(F, 3, "d", "r", "m"),
   fXX |-> Ty(F, F, "f", "c", "m"), f22 |-> Ty(2, 2, "f", "c", "m"), fX1 |-> Ty(F, 1, "f", "c", "m"), f1X |-> Ty(1, F, "f", "c", "m"),
   iXX |-> Ty(F, F, "i", "c", "m"), i1X |-> Ty(1, F, "i", "c", "m"), iX2 |-> Ty(F, 2, "i", "c", "m"), cXX |-> Ty(F, F, "c", "c", "m"), c2X |-> Ty(2, F, "c", "c", "m"),
   T44 |-> Ty(4, 4, "d", "c", "iso"), T34 |-> Ty(3, 4, "d", "c", "compact"), T33 |-> Ty(3, 3, "f", "c", "affine")]
Names == DOMAIN Types
Dim(n) == IF n = F THEN 0 ELSE n
Zero(t) == [r |-> Dim(t.r), c |-> Dim(t.c), d |-> [i \in 1..(Dim(t.r) * Dim(t.c)) |-> IF t.sc = "c" THEN "0i0" ELSE "0"]]
Fits(m, t) == t.r \in {F, m.r} /\ t.c \in {F, m.c}
Flat(m) == m.r <= 1 \/ m.c <= 1 \/ m.d = <<>>
(* whether a program may read what was written with type t into type u        *)
Readable(m, t, u) == t.sc = u.sc /\ t.kind = u.kind /\ (t.ord = u.ord \/ Flat(m))
SInit == [var |-> [n \in Names |-> Zero(Types[n])], arch |-> <<>>, mode |-> "none", files |-> {}]
Just(b, x) == IF b THEN {x} ELSE {}
Is(e, m) == e.r.r = m.r /\ e.r.c = m.c /\ e.r.d = m.d
Put(s, n, m) == [s EXCEPT !.var[n] = m]
(* reading matrix m into variable n: it arrives, or an exception is raised    *)
(* and the variable keeps its value                                           *)
Read(s, e, n, m, after, failed) ==
  IF Fits(m, Types[n]) THEN Just(e.r.k = "mat" /\ Is(e, m), Put(after, n, m))
  ELSE Just(e.r.k = "exc" /\ e.r.t = "SerializationException" /\ Is(e, s.var[n]), failed)
SNext(s, e) ==
  CASE e.op = "set" -> Just(e.r.k = "ok", Put(s, e.ty, e.v))
    [] e.op = "show" -> Just(e.r.k = "mat" /\ Is(e, s.var[e.ty]), s)
    [] e.op = "create" -> Just(e.r.k = "ok", [s EXCEPT !.arch = <<>>, !.mode = "write"])
    [] e.op = "save" -> Just(e.r.k = "ok", [s EXCEPT !.arch = Append(@, s.var[e.ty])])
    [] e.op = "open" -> Just(e.r.k = "ok", [s EXCEPT !.mode = "read"])
    [] e.op = "load" -> \* the next one; after an exception the archive cannot be used any more
         Read(s, e, e.ty, Head(s.arch), [s EXCEPT !.arch = Tail(@)], [s EXCEPT !.arch = <<>>, !.mode = "none"])
    [] e.op = "fsave" -> Just(e.r.k = "ok", [s EXCEPT !.files = { x \in @ : x[1] # e.name } \cup {<<e.name, s.var[e.ty]>>}])
    [] e.op = "fload" ->
         IF \E x \in s.files : x[1] = e.name THEN Read(s, e, e.ty, (CHOOSE x \in s.files : x[1] = e.name)[2], s, s)
         ELSE Just(e.r.k = "exc" /\ e.r.t = "runtime_error" /\ Is(e, s.var[e.ty]), s)
    [] OTHER -> {}
===============================================================================
