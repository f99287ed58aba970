------------------------------ MODULE KinObjects ------------------------------
(* The kinematic objects as containers of numbers: transformations, points,   *)
(* uncertain vectors.  A slot holds [t, c]: a type and its numbers (as texts) *)
(* in order; archives and files hold what slots contained when they were      *)
(* written.  Also: random objects, and transformations from property trees.   *)
EXTENDS Integers, Sequences, FiniteSets, TLC
Size == [T |-> 7, UT |-> 43, HP |-> 4, UHP |-> 20, V1 |-> 2, V2 |-> 6, V3 |-> 12, V4 |-> 20]
Slots == [T0 |-> "T", T1 |-> "T", U0 |-> "UT", U1 |-> "UT", H0 |-> "HP", H1 |-> "HP", P0 |-> "UHP", P1 |-> "UHP",
          A0 |-> "V1", A1 |-> "V1", B0 |-> "V2", B1 |-> "V2", C0 |-> "V3", C1 |-> "V3", D0 |-> "V4", D1 |-> "V4"]
Zeros(n) == [i \in 1..n |-> "0"]
Eye(n) == [i \in 1..(n * n) |-> IF (i - 1) \div n = (i - 1) % n THEN "1" ELSE "0"]
(* default constructed: the identity, the origin, no uncertainty *)
Fresh(t) ==
  CASE t = "T" -> <<"0", "0", "0", "1", "0", "0", "0">>
    [] t = "UT" -> <<"0", "0", "0", "1", "0", "0", "0">> \o Zeros(36)
    [] t = "HP" -> <<"0", "0", "0", "1">>
    [] t = "UHP" -> <<"0", "0", "0", "1">> \o Zeros(16)
    [] OTHER -> Zeros(Size[t])
SInit == [x |-> [s \in DOMAIN Slots |-> Fresh(Slots[s])], arch |-> <<>>, mode |-> "none", files |-> {}]
Just(b, y) == IF b THEN {y} ELSE {}
Sq(n) == n * n
Abs(n) == IF n < 0 THEN 0 - n ELSE n
(* facts about a random object, in millionths *)
Unit(m) == Abs(m - 1000000) <= 1
Spread(e) ==
  LET t == Slots[e.s] r == e.r IN
  /\ t \in {"T", "UT"} => /\ Unit(r.norm)
                          /\ ("tmax" \in DOMAIN e => r.trans <= e.tmax * 15625 + 1)          \* in 64ths
                          /\ ("tmax" \in DOMAIN e /\ e.rmax < 201 => r.angle <= e.rmax * 15625 + 1)
  /\ t \in {"HP", "UHP"} => Unit(r.norm)
  /\ t # "T" /\ t # "HP" => r.sym /\ r.least >= 0 - 1
  /\ t = "UHP" => r.least >= 999990
  /\ t \in {"V2", "V3", "V4"} => r.least >= 999990
SNext(s, e) ==
  CASE e.op = "set" -> Just(e.r.k = "c" /\ e.r.c = e.c, [s EXCEPT !.x[e.s] = e.c])
    [] e.op = "show" -> Just(e.r.k = "c" /\ e.r.c = s.x[e.s], s)
    [] e.op = "fresh" -> Just(e.r.k = "c" /\ e.r.c = Fresh(Slots[e.s]), [s EXCEPT !.x[e.s] = e.r.c])
    [] e.op = "copy" -> Just(e.r.k = "c" /\ e.r.c = s.x[e.from], [s EXCEPT !.x[e.s] = e.r.c])
    [] e.op = "equal" -> Just(e.r.k = "bool" /\ e.r.v = (s.x[e.s] = s.x[e.from]), s)
    [] e.op = "random" -> Just(e.r.k = "random" /\ Len(e.r.c) = Size[Slots[e.s]] /\ Spread(e) /\ (e.r.c # s.x[e.s] \/ ("tmax" \in DOMAIN e /\ e.tmax = 0 /\ e.rmax = 0)), [s EXCEPT !.x[e.s] = e.r.c])
    [] e.op = "create" -> Just(e.r.k = "ok", [s EXCEPT !.arch = <<>>, !.mode = "write"])
    [] e.op = "save" -> Just(e.r.k = "ok", [s EXCEPT !.arch = Append(@, s.x[e.s])])
    [] e.op = "open" -> Just(e.r.k = "ok", [s EXCEPT !.mode = "read"])
    [] e.op = "load" -> Just(e.r.k = "c" /\ e.r.c = Head(s.arch), [s EXCEPT !.x[e.s] = e.r.c, !.arch = Tail(@)])
    [] e.op = "fsave" -> Just(e.r.k = "ok", [s EXCEPT !.files = { y \in @ : y[1] # e.name } \cup {<<e.name, s.x[e.s]>>}])
    [] e.op = "fload" -> IF \E y \in s.files : y[1] = e.name
                         THEN Just(e.r.k = "c" /\ e.r.c = (CHOOSE y \in s.files : y[1] = e.name)[2], [s EXCEPT !.x[e.s] = e.r.c])
                         ELSE Just(e.r.k = "exc", s)
    \* an archive written by a newer version of the class is refused
    [] e.op = "newer" -> Just(e.r.k = (IF e.v = 0 THEN "c" ELSE "exc") /\ e.r.c = s.x[e.s], s)
    \* a quaternion of integer length e.n and a translation in eighths
    [] e.op = "ptree" -> IF e.drop = "" THEN Just(e.r.k = "T" /\ e.r.q = [i \in 1..4 |-> e.q[i]] /\ e.r.t = e.t, s)
                         ELSE Just(e.r.k = "exc" /\ e.r.t = "InvalidKeyException", s)
    [] OTHER -> {}
===============================================================================
