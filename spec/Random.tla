-------------------------------- MODULE Random --------------------------------
(* The random numbers of sm_random.  Nothing is said about the numbers        *)
(* themselves; they are a function Value of the seed and of the draws made    *)
(* since it was set.  The specification learns this function: memo holds what *)
(* it has seen, as [s, d, v]: seed, sequence of draws, value of the last one. *)
EXTENDS Integers, Sequences, FiniteSets, TLC
Abs(x) == IF x < 0 THEN 0 - x ELSE x
SInit == [seed |-> "none", done |-> <<>>, memo |-> {}]
Just(b, x) == IF b THEN {x} ELSE {}
(* which stream a draw reads: rand is another name of uniform, randn of normal *)
Key(d) == CASE d.d \in {"uniform", "rand"} -> "u"
            [] d.d \in {"normal", "randn"} -> "n"
            [] d.d = "lu" -> "lu " \o d.a \o " " \o d.b
            [] d.d = "lui" -> "lui " \o d.a \o " " \o d.b
(* value v for draw key q after seed sd and draws p: the same as the last time *)
Agrees(memo, sd, p, v) == \A m \in memo : (m.s = sd /\ m.d = p) => m.v = v
Learn(memo, sd, p, v) == memo \cup {[s |-> sd, d |-> p, v |-> v]}
(* a sequence of draws ds with values vs *)
RECURSIVE Run(_, _, _, _, _)
Run(memo, sd, p, ks, vs) ==
  IF ks = <<>> THEN [ok |-> TRUE, memo |-> memo, p |-> p]
  ELSE LET q == Append(p, Head(ks)) IN
       IF Agrees(memo, sd, q, Head(vs)) THEN Run(Learn(memo, sd, q, Head(vs)), sd, q, Tail(ks), Tail(vs)) ELSE [ok |-> FALSE, memo |-> memo, p |-> p]
Keys(ds) == [i \in DOMAIN ds |-> Key(ds[i])]
Drawn(s, e, ks) == Len(e.r.v) = Len(ks) /\ e.r.in
SNext(s, e) ==
  CASE e.op = "seed" -> Just(e.r.k = "ok", [s EXCEPT !.seed = e.s, !.done = <<>>])
    [] e.op = "draw" -> \* one number
         IF e.r.k # "vals" \/ ~Drawn(s, e, <<Key(e)>>) THEN {}
         ELSE LET x == Run(s.memo, s.seed, s.done, <<Key(e)>>, e.r.v) IN Just(x.ok, [s EXCEPT !.memo = x.memo, !.done = x.p])
    [] e.op = "vec" -> \* a vector of normally distributed numbers
         LET ks == [i \in 1..e.n |-> "n"] IN
         IF e.r.k # "vals" \/ ~Drawn(s, e, ks) THEN {}
         ELSE LET x == Run(s.memo, s.seed, s.done, ks, e.r.v) IN Just(x.ok, [s EXCEPT !.memo = x.memo, !.done = x.p])
    [] e.op = "fresh" -> \* the same seed and draws in another process
         LET ks == Keys(e.ds) IN
         IF e.r.k # "vals" \/ ~Drawn(s, e, ks) THEN {}
         ELSE LET x == Run(s.memo, e.s, <<>>, ks, e.r.v) IN Just(x.ok, [s EXCEPT !.memo = x.memo])
    [] e.op = "two" -> \* streams of two different seeds
         Just(e.r.k = "differ" /\ e.r.b, [s EXCEPT !.seed = "two " \o e.s \o " " \o e.s2, !.done = <<>>])
    [] e.op = "bulk" -> \* counts of e.n draws in eight intervals of equal probability: six standard deviations
         Just(/\ e.r.k = "counts" /\ e.r.in
              /\ \A i \in 1..8 : LET d == Abs(8 * e.r.c[i] - e.n) IN d < 40000 /\ d * d <= 36 * 7 * e.n,
              [s EXCEPT !.done = Append(@, "bulk " \o ToString(e.n) \o Key(e))])
    [] OTHER -> {}
===============================================================================
