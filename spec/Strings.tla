------------------------------- MODULE Strings --------------------------------
(* sm_common string routines.  Texts are sequences of character codes.  The   *)
(* state is the environment: a set of <<name, value>>.                        *)
EXTENDS Integers, Sequences, FiniteSets
Rep(c, n) == [i \in 1..(IF n > 0 THEN n ELSE 0) |-> c]
Rev(s) == [i \in 1..Len(s) |-> s[Len(s) + 1 - i]]
Count(s, c) == Cardinality({ i \in 1..Len(s) : s[i] = c })
Upto(s, i, c) == Cardinality({ j \in 1..i : s[j] = c })
(* every occurrence but the first / last k                                    *)
Replace(s, t, r, k) == [i \in 1..Len(s) |-> IF s[i] = t /\ Upto(s, i, t) > k THEN r ELSE s[i]]
ReplaceReverse(s, t, r, k) == [i \in 1..Len(s) |-> IF s[i] = t /\ Count(s, t) - Upto(s, i, t) >= k THEN r ELSE s[i]]
PadLeft(s, n, c) == Rep(c, n - Len(s)) \o s
Trailing(s) == IF s # <<>> /\ s[Len(s)] = 47 THEN s ELSE Append(s, 47)

(* positions                                                                  *)
RECURSIVE Find(_, _, _)
At(s, p, i) == i + Len(p) - 1 <= Len(s) /\ \A k \in 1..Len(p) : s[i + k - 1] = p[k]
Find(s, p, i) == IF i + Len(p) - 1 > Len(s) THEN 0 ELSE IF At(s, p, i) THEN i ELSE Find(s, p, i + 1)
Defined(env, n) == \E x \in env : x[1] = n
Value(env, n) == (CHOOSE x \in env : x[1] = n)[2]
(* $(NAME), leftmost first, not nested; unknown names stay as they are        *)
RECURSIVE Subst(_, _)
Subst(env, s) ==
  LET i == Find(s, <<36, 40>>, 1)
      j == IF i = 0 THEN 0 ELSE Find(s, <<41>>, i + 2)
  IN IF j = 0 THEN s
     ELSE LET n == SubSeq(s, i + 2, j - 1) IN
          SubSeq(s, 1, i - 1) \o (IF Defined(env, n) THEN Value(env, n) ELSE SubSeq(s, i, j)) \o Subst(env, SubSeq(s, j + 1, Len(s)))

(* numbers                                                                    *)
RECURSIVE Dec(_)
Dec(n) == IF n < 10 THEN <<48 + n>> ELSE Append(Dec(n \div 10), 48 + (n % 10))
IntText(n) == IF n < 0 THEN <<45>> \o Dec(0 - n) ELSE Dec(n)
RECURSIVE Pow(_, _)
Pow(b, n) == IF n = 0 THEN 1 ELSE b * Pow(b, n - 1)
(* N / D rounded to the nearest integer, ties to even                         *)
RoundDiv(N, D) == LET q == N \div D  r == N % D IN IF (2 * r > D) \/ (2 * r = D /\ q % 2 = 1) THEN q + 1 ELSE q
Abs(n) == IF n < 0 THEN 0 - n ELSE n
Sign(n) == IF n < 0 THEN <<45>> ELSE <<>>
(* d digits, the last p of them behind the point                              *)
Point(d, p) == IF p = 0 THEN d ELSE SubSeq(d, 1, Len(d) - p) \o <<46>> \o SubSeq(d, Len(d) - p + 1, Len(d))
Fixed(n, k, p) == Sign(n) \o Point(PadLeft(Dec(RoundDiv(Abs(n) * Pow(10, p), Pow(2, k))), p + 1, 48), p)
(* the decimal exponent of a / 2^k, a > 0                                     *)
Exponent(a, k) == CHOOSE e \in (0 - 5)..9 : IF e >= 0 THEN a >= Pow(10, e) * Pow(2, k) /\ (e = 9 \/ a < Pow(10, e) * Pow(2, k) * 10)
                                            ELSE a * Pow(10, 0 - e) >= Pow(2, k) /\ a * Pow(10, (0 - e) - 1) < Pow(2, k)
ExpText(e) == <<101>> \o (IF e < 0 THEN <<45>> ELSE <<43>>) \o PadLeft(Dec(Abs(e)), 2, 48)
Scientific(n, k, p) ==
  IF n = 0 THEN Point(Rep(48, p + 1), p) \o ExpText(0)
  ELSE LET e == Exponent(Abs(n), k)
           q == IF p >= e THEN RoundDiv(Abs(n) * Pow(10, p - e), Pow(2, k)) ELSE RoundDiv(Abs(n), Pow(2, k) * Pow(10, e - p))
           over == q = Pow(10, p + 1)
       IN Sign(n) \o Point(Dec(IF over THEN q \div 10 ELSE q), p) \o ExpText(IF over THEN e + 1 ELSE e)
MaxOf(a, b) == IF a > b THEN a ELSE b
(* lists                                                                      *)
RECURSIVE Join(_, _)
Join(l, d) == IF l = <<>> THEN <<>> ELSE IF Len(l) = 1 THEN l[1] ELSE l[1] \o d \o Join(Tail(l), d)
Texts(l) == [i \in 1..Len(l) |-> IntText(l[i])]
Tuple(l) == IF Len(l) = 1 THEN IntText(l[1]) ELSE <<91>> \o Join(Texts(l), <<44>>) \o <<93>>

Progress(n, k) == IF n >= Pow(2, k) THEN <<13>> \o <<67,111,109,112,108,101,116,101,33>> \o Rep(32, 13) \o <<10>>
                  ELSE <<13>> \o Fixed(100 * n, k, 2) \o <<37,32,99,111,109,112,108,101,116,101,32>>
Text(e) ==   \* the text that the call returns in environment env
  CASE e.op = "replace" -> Replace(e.s, e.t, e.c, e.n)
    [] e.op = "rreplace" -> ReplaceReverse(e.s, e.t, e.c, e.n)
    [] e.op = "lpad" -> PadLeft(e.s, e.n, e.c)
    [] e.op = "trail" -> Trailing(e.s)
    [] e.op = "ts" -> IntText(e.i)
    [] e.op = "padint" -> PadLeft(IntText(e.i), e.n, e.c)
    [] e.op = "padstr" -> PadLeft(e.s, e.n, e.c)
    [] e.op = "paddbl" -> PadLeft(Fixed(e.i, e.k, e.p), e.n, 32)
    [] e.op = "fixed" -> Fixed(e.i, e.k, e.p)
    [] e.op = "sci" -> PadLeft(Scientific(e.i, e.k, e.p), MaxOf(e.n, e.p + 7), 32)
    [] e.op = "tuple" -> Tuple(e.l)
    [] e.op = "list" -> e.pre \o Join(Texts(e.l), e.d) \o e.post
    [] e.op = "arr" -> <<91>> \o Join(Texts(e.l), <<44>>) \o <<93>>
    [] e.op = "plist" -> e.pre \o Join([i \in 1..Len(e.l) |-> PadLeft(Fixed(e.l[i], e.k, e.p), e.n, 32)], e.d) \o e.post
SInit == [env |-> {}]
Just(b, n) == IF b THEN {n} ELSE {}
SNext(s, e) ==
  CASE e.op = "setenv" -> Just(e.r.k = "ok", [s EXCEPT !.env = { x \in @ : x[1] # e.s } \cup {<<e.s, e.v>>}])
    [] e.op = "unsetenv" -> Just(e.r.k = "ok", [s EXCEPT !.env = { x \in @ : x[1] # e.s }])
    [] e.op = "subst" -> Just(e.r.k = "text" /\ e.r.s = Subst(s.env, e.s), s)
    [] e.op = "progress" -> \* i of 2^k done
         IF e.i < 0 \/ e.i > Pow(2, e.k) THEN Just(e.r.k = "exc" /\ e.r.t = "runtime_error", s)
         ELSE Just(e.r.k = "text" /\ e.r.s = Progress(e.i, e.k), s)
    [] e.op = "progress0" -> Just(e.r.k = "exc" /\ e.r.t = "runtime_error", s)       \* of a total that is not positive
    [] OTHER -> Just(e.r.k = "text" /\ e.r.s = Text(e), s)
===============================================================================
