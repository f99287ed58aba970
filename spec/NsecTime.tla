------------------------------- MODULE NsecTime -------------------------------
(* sm::timing nanosecond epoch time.  A 64 bit time is                        *)
(* [neg, q] with q = <<l1, l2, l3, l4>>: |t| = l1 + l2*10^6 + l3*10^12 + l4*10^18. *)
EXTENDS Integers, Sequences, FiniteSets
B == 1000000
Max == <<775807, 36854, 223372, 9>>             \* 2^63 - 1
Min == <<775808, 36854, 223372, 9>>             \* |-2^63|
LessQ(a, b) == \/ a[4] < b[4]
               \/ a[4] = b[4] /\ (a[3] < b[3] \/ (a[3] = b[3] /\ (a[2] < b[2] \/ (a[2] = b[2] /\ a[1] < b[1]))))
Zero == <<0, 0, 0, 0>>
IsTime(t) == /\ \A i \in 1..4 : t.q[i] \in 0..(B - 1)
             /\ IF t.neg THEN ~LessQ(Min, t.q) /\ t.q # Zero ELSE ~LessQ(Max, t.q)
Less(a, b) == IF a.neg # b.neg THEN a.neg ELSE IF a.neg THEN LessQ(b.q, a.q) ELSE LessQ(a.q, b.q)
Invalid == [neg |-> TRUE, q |-> Min]

(* a - b for LessQ(b, a) or a = b *)
SubQ(a, b) ==
  LET d1 == a[1] - b[1]                      c1 == IF d1 < 0 THEN 1 ELSE 0
      d2 == a[2] - b[2] - c1                 c2 == IF d2 < 0 THEN 1 ELSE 0
      d3 == a[3] - b[3] - c2                 c3 == IF d3 < 0 THEN 1 ELSE 0
  IN <<d1 + c1 * B, d2 + c2 * B, d3 + c3 * B, a[4] - b[4] - c3>>
AddQ(a, b) ==
  LET s1 == a[1] + b[1]  s2 == a[2] + b[2] + s1 \div B  s3 == a[3] + b[3] + s2 \div B
  IN <<s1 % B, s2 % B, s3 % B, a[4] + b[4] + s3 \div B>>
Dist(a, b) == IF a.neg # b.neg THEN AddQ(a.q, b.q) ELSE IF LessQ(a.q, b.q) THEN SubQ(b.q, a.q) ELSE SubQ(a.q, b.q)
(* one nanosecond plus the resolution of a double at that time, |t| / 2^51 rounded up *)
Resolution(t) == AddQ(<<1, 0, 0, 0>>, <<t.q[4] * 1000 + t.q[3] \div 1000, 0, 0, 0>>)
Near(a, b) == ~LessQ(Resolution(b), Dist(a, b))
(* n * 1000 for n < 2^31 as a magnitude *)
OfSec(s) == <<0, (s % 1000) * 1000, (s \div 1000) % B, s \div (1000 * B)>>
Mk(neg, q) == [neg |-> neg /\ q # Zero, q |-> q]

Answer(e) ==
  CASE e.op = "valid" -> e.r.k = "bool" /\ e.r.b = (e.t # Invalid)
    [] e.op = "invalid" -> e.r.k = "time" /\ e.r.v = Invalid
    [] e.op = "chrono" -> e.r.k = "time" /\ e.r.v = e.t                      \* there and back: exact
    [] e.op = "sec" -> e.r.k = "time" /\ Near(e.r.v, e.t)                    \* to seconds and back: to resolution
    [] e.op = "whole" -> e.r.k = "time" /\ e.r.v = Mk(e.neg, OfSec(e.s))     \* secToNsec(whole seconds)
    [] e.op = "part" -> \* secToNsec(s + k/512), exactly representable
         LET a == e.kk * 1953125 IN e.r.k = "time" /\ e.r.v = Mk(e.neg, AddQ(OfSec(e.s), <<a % B, a \div B, 0, 0>>))
    [] e.op = "toSec" -> e.r.k = "int" /\ e.r.i = e.s                        \* nsecToSec(s * 10^9)
    [] e.op = "mono" -> e.r.k = "cmp" /\ (Less(e.t, e.u) => e.r.sec <= 0) /\ (Less(e.u, e.t) => e.r.sec >= 0)
                        /\ (e.t = e.u => e.r.sec = 0)
                        /\ e.r.back * e.r.sec >= 0 /\ (e.r.sec = 0 => e.r.back = 0)
                        /\ e.r.chr = (IF Less(e.t, e.u) THEN -1 ELSE IF Less(e.u, e.t) THEN 1 ELSE 0)
    [] e.op = "now" -> e.r.k = "time" /\ e.r.v = e.t                         \* the (virtual) clock shows e.t
    [] OTHER -> FALSE
===============================================================================
