--------------------------------- MODULE Ids ----------------------------------
(* sm_common: HashId (32 hexadecimal digits) and Id types (16 digits, a 64    *)
(* bit number, most significant digit first).  The state holds the variables  *)
(* of a client, its containers, and what has been learnt of the two things    *)
(* that the specification leaves open: the hash function and the order of     *)
(* HashIds.  A call is consistent iff hash stays a function of the value and  *)
(* the order a total order.                                                   *)
EXTENDS Integers, Sequences, FiniteSets, TLC
Zeros(n) == [i \in 1..n |-> 0]
Ones(n) == [i \in 1..n |-> 15]
HZero == Zeros(32)
Unset == Ones(16)
NS == 4                                             \* variables of each kind
Digit(c) == CASE c \in 48..57 -> c - 48 [] c \in 97..102 -> c - 87 [] c \in 65..70 -> c - 55 [] OTHER -> 16
Digits(t) == [i \in 1..Len(t) |-> Digit(t[i])]
IsHex(t, n) == Len(t) = n /\ \A i \in 1..n : Digit(t[i]) < 16
LowerHex(v) == [i \in 1..Len(v) |-> IF v[i] < 10 THEN v[i] + 48 ELSE v[i] + 87]
(* numbers as digit sequences of equal length                                 *)
Diff(a, b) == { i \in 1..Len(a) : a[i] # b[i] }
Min(S) == CHOOSE x \in S : \A y \in S : x <= y
Max(S) == CHOOSE x \in S : \A y \in S : x >= y
NLess(a, b) == Diff(a, b) # {} /\ LET i == Min(Diff(a, b)) IN a[i] < b[i]
Succ(a) == LET nf == { i \in 1..Len(a) : a[i] # 15 } IN
           IF nf = {} THEN Zeros(Len(a))
           ELSE LET p == Max(nf) IN [i \in 1..Len(a) |-> IF i < p THEN a[i] ELSE IF i = p THEN a[i] + 1 ELSE 0]

IInit == [h |-> [i \in 1..NS |-> HZero], d |-> [i \in 1..NS |-> Unset],
          hs |-> {}, ds |-> {},          \* the containers
          used |-> {},                   \* HashIds generated at random so far
          hf |-> {}, df |-> {},          \* learnt: <<value, hash>>
          lt |-> {}]                     \* learnt: v before w
(* the comparison of values a and b as a record of the six operators          *)
Six(eq, lt) == [eq |-> eq, ne |-> ~eq, lt |-> lt, gt |-> ~eq /\ ~lt, le |-> eq \/ lt, ge |-> ~lt]
Four(eq, lt) == [eq |-> eq, ne |-> ~eq, lt |-> lt, gt |-> ~eq /\ ~lt]
Function(R) == \A x, y \in R : (x[1] = y[1]) => (x[2] = y[2])
TotalOrder(R, V) == /\ \A x, y \in V : x # y => (<<x, y>> \in R) # (<<y, x>> \in R)
                    /\ \A x, y, z \in V : (<<x, y>> \in R /\ <<y, z>> \in R) => <<x, z>> \in R
Acyclic(R) == \A x, y \in R : x[1] # x[2] /\ ~(x[1] = y[2] /\ x[2] = y[1])
Just(b, n) == IF b THEN {n} ELSE {}
Ok(e) == e.r.k = "ok"
Bool(e, b) == e.r.k = "bool" /\ e.r.b = b

HNext(s, e) ==
  CASE e.op = "hdef" -> Just(Ok(e), [s EXCEPT !.h[e.i] = HZero])
    [] e.op = "hinv" -> Just(Ok(e), [s EXCEPT !.h[e.i] = HZero])
    [] e.op = "hfrom" -> Just(Bool(e, IsHex(e.s, 32)), IF IsHex(e.s, 32) THEN [s EXCEPT !.h[e.i] = Digits(e.s)] ELSE s)
    [] e.op = "hcopy" -> Just(Ok(e), [s EXCEPT !.h[e.i] = s.h[e.j]])
    [] e.op = "hwords" -> Just(Ok(e), [s EXCEPT !.h[e.i] = s.h[e.j]])      \* through two 64 bit words and back
    [] e.op = "hrand" -> \* any valid id that was never generated before
         Just(e.r.k = "hex" /\ IsHex(e.r.s, 32) /\ Digits(e.r.s) # HZero /\ Digits(e.r.s) \notin s.used,
              [s EXCEPT !.h[e.i] = Digits(e.r.s), !.used = @ \cup {Digits(e.r.s)}])
    [] e.op = "hmany" -> \* n of them: all distinct and valid, and every bit takes both values
         Just(e.r.k = "many" /\ e.r.distinct = e.n /\ e.r.valid = e.n /\ e.r.fixed = <<>>, s)
    [] e.op = "rand" -> \* the n-th of the ids that threads generated: e.r.first is the number of the first one equal to it
         Just(e.r.k = "first" /\ e.r.first = e.n /\ e.r.valid /\ e.n \notin s.used, [s EXCEPT !.used = @ \cup {e.n}])
    [] e.op = "hobs" ->
         LET V == { s.h[i] : i \in 1..NS }
             hf == s.hf \cup { <<s.h[i], e.r.hash[i]>> : i \in 1..NS }
             lt == s.lt \cup { <<s.h[p[1]], s.h[p[2]]>> : p \in { p \in (1..NS) \X (1..NS) : e.r.cmp[p[1]][p[2]].lt } }
             good == /\ e.r.k = "obs"
                     /\ \A i \in 1..NS : /\ e.r.hex[i] = LowerHex(s.h[i]) /\ e.r.out[i] = LowerHex(s.h[i])
                                         /\ e.r.valid[i] = (s.h[i] # HZero)
                     /\ \A i, j \in 1..NS : e.r.cmp[i][j] = Four(s.h[i] = s.h[j], <<s.h[i], s.h[j]>> \in lt)
                     /\ TotalOrder(lt, V) /\ Acyclic(lt) /\ Function(hf)
         IN Just(good, [s EXCEPT !.hf = hf, !.lt = lt])
    \* std::set, std::unordered_set: inserted anew in both, sizes
    [] e.op = "hins" -> LET n == s.h[e.i] \notin s.hs  hs == s.hs \cup {s.h[e.i]} IN
                        Just(e.r.k = "ins" /\ e.r.n = <<n, n>> /\ e.r.size = <<Cardinality(hs), Cardinality(hs)>>, [s EXCEPT !.hs = hs])
    [] e.op = "hera" -> LET n == s.h[e.i] \in s.hs  hs == s.hs \ {s.h[e.i]} IN
                        Just(e.r.k = "ins" /\ e.r.n = <<n, n>> /\ e.r.size = <<Cardinality(hs), Cardinality(hs)>>, [s EXCEPT !.hs = hs])
    [] e.op = "hhas" -> LET n == s.h[e.i] \in s.hs IN Just(e.r.k = "has" /\ e.r.n = <<n, n>>, s)
    [] OTHER -> {}

DNext(s, e) ==
  CASE e.op = "dset" -> Just(Ok(e), [s EXCEPT !.d[e.i] = e.v])
    [] e.op \in {"ddef", "dclear"} -> Just(Ok(e), [s EXCEPT !.d[e.i] = Unset])
    [] e.op \in {"dcopy", "dconv"} -> Just(Ok(e), [s EXCEPT !.d[e.i] = s.d[e.j]])
    [] e.op = "dswap" -> Just(Ok(e), [s EXCEPT !.d[e.i] = s.d[e.j], !.d[e.j] = s.d[e.i]])
    [] e.op = "dpre" -> LET n == Succ(s.d[e.i]) IN Just(e.r.k = "val" /\ e.r.v = n, [s EXCEPT !.d[e.i] = n])
    [] e.op = "dpost" -> Just(e.r.k = "val" /\ e.r.v = s.d[e.i], [s EXCEPT !.d[e.i] = Succ(s.d[e.i])])
    [] e.op = "dser" -> Just(Ok(e), [s EXCEPT !.d[e.i] = s.d[e.j]])          \* through an archive
    [] e.op = "drand" -> Just(e.r.k = "val" /\ e.r.v # Unset, [s EXCEPT !.d[e.i] = e.r.v])
    [] e.op = "dobs" ->
         LET df == s.df \cup { <<s.d[i], e.r.hash[i]>> : i \in 1..NS }
             good == /\ e.r.k = "obs"
                     /\ \A i \in 1..NS : e.r.get[i] = s.d[i] /\ e.r.val[i] = s.d[i] /\ e.r.out[i] = s.d[i] /\ e.r.set[i] = (s.d[i] # Unset)
                     /\ \A i, j \in 1..NS : /\ e.r.cmp[i][j] = Six(s.d[i] = s.d[j], NLess(s.d[i], s.d[j]))
                                            /\ e.r.same[i][j] = (s.d[i] = s.d[j])
                     /\ Function(df)
         IN Just(good, [s EXCEPT !.df = df])
    [] e.op = "dins" -> LET n == s.d[e.i] \notin s.ds  c == Cardinality(s.ds \cup {s.d[e.i]}) IN
                        Just(e.r.k = "ins" /\ e.r.n = <<n, n, n>> /\ e.r.size = <<c, c, c>>, [s EXCEPT !.ds = @ \cup {s.d[e.i]}])
    [] e.op = "dera" -> LET n == s.d[e.i] \in s.ds  c == Cardinality(s.ds \ {s.d[e.i]}) IN
                        Just(e.r.k = "ins" /\ e.r.n = <<n, n, n>> /\ e.r.size = <<c, c, c>>, [s EXCEPT !.ds = @ \ {s.d[e.i]}])
    [] e.op = "dhas" -> LET n == s.d[e.i] \in s.ds IN Just(e.r.k = "has" /\ e.r.n = <<n, n, n>>, s)
    [] OTHER -> {}
INext(s, e) == HNext(s, e) \cup DNext(s, e)
===============================================================================
