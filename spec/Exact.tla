-------------------------------- MODULE Exact --------------------------------
(* Exact arithmetic: integer quaternions <<x, y, z, w>>, integer vectors and   *)
(* matrices, rational matrices [m |-> integers, d |-> denominator].           *)
EXTENDS Integers, Sequences, FiniteSets
(* the value v, computed once (TLC evaluates [i \in S |-> ...] at each access)  *)
Now(v) == CHOOSE y \in {v} : y = y
Abs(x) == IF x < 0 THEN 0 - x ELSE x
N(q) == q[1] * q[1] + q[2] * q[2] + q[3] * q[3] + q[4] * q[4]
Mat(q) == LET a == q[1] b == q[2] c == q[3] d == q[4] IN
  << << a*a - b*b - c*c + d*d, 2*(a*b + c*d), 2*(a*c - b*d) >>,
     << 2*(a*b - c*d), b*b - a*a - c*c + d*d, 2*(a*d + b*c) >>,
     << 2*(a*c + b*d), 2*(b*c - a*d), c*c + d*d - a*a - b*b >> >>
Plus(q) == << <<q[4], q[3], 0 - q[2], q[1]>>, <<0 - q[3], q[4], q[1], q[2]>>, <<q[2], 0 - q[1], q[4], q[3]>>, <<0 - q[1], 0 - q[2], 0 - q[3], q[4]>> >>
OPlus(q) == << <<q[4], 0 - q[3], q[2], q[1]>>, <<q[3], q[4], 0 - q[1], q[2]>>, <<0 - q[2], q[1], q[4], q[3]>>, <<0 - q[1], 0 - q[2], 0 - q[3], q[4]>> >>
RECURSIVE DotTo(_, _, _)
DotTo(v, w, n) == IF n = 0 THEN 0 ELSE v[n] * w[n] + DotTo(v, w, n - 1)
Dot(v, w) == DotTo(v, w, Len(v))
MV(m, v) == [i \in 1..Len(m) |-> Dot(m[i], v)]
T(m) == [j \in 1..Len(m[1]) |-> [i \in 1..Len(m) |-> m[i][j]]]
MMT(m, k) == Now([i \in 1..Len(m) |-> [j \in 1..Len(k) |-> Dot(m[i], k[j])]])
MM(m, k) == MMT(m, Now(T(k)))
Scale(f, v) == [i \in 1..Len(v) |-> f * v[i]]
MScale(f, m) == [i \in 1..Len(m) |-> Scale(f, m[i])]
QProd(q, p) == MV(Plus(q), p)
QInv(q) == <<0 - q[1], 0 - q[2], 0 - q[3], q[4]>>
Neg(q) == Scale(0 - 1, q)
Cross(v) == << <<0, 0 - v[3], v[2]>>, <<v[3], 0, 0 - v[1]>>, <<0 - v[2], v[1], 0>> >>
RECURSIVE Gcd(_, _)
Gcd(a, b) == IF b = 0 THEN a ELSE Gcd(b, a % b)
Prim(q) == LET g == Gcd(Gcd(Abs(q[1]), Abs(q[2])), Gcd(Abs(q[3]), Abs(q[4]))) IN [i \in 1..4 |-> IF q[i] < 0 THEN 0 - (Abs(q[i]) \div g) ELSE q[i] \div g]

(* a recorded fraction f = <<n, d>> in lowest terms, d > 0, is num / den, den > 0 *)
IsNum(f, num, den) == den % f[2] = 0 /\ num % (den \div f[2]) = 0 /\ num \div (den \div f[2]) = f[1]
VecNum(r, v, den) == Len(r) = Len(v) /\ \A i \in 1..Len(v) : IsNum(r[i], v[i], den)
AllNum(r, m, den) == Len(r) = Len(m) /\ \A i \in 1..Len(m) : VecNum(r[i], m[i], den)


(* ------------------------------------------------ rotations given by angles *)
An(a) == a.s * a.s + a.c * a.c
QX(a, g) == <<g * a.s, 0, 0, a.c>>     \* g = 1: the frame turns, g = -1: the vector turns
QY(a, g) == <<0, g * a.s, 0, a.c>>
QZ(a, g) == <<0, 0, g * a.s, a.c>>
M0 == 0 - 1
Rzyx(z, y, x, g) == QProd(QZ(z, g), QProd(QY(y, g), QX(x, g)))
(* the quaternion of three Euler angles in a parameterisation                 *)
Euler(f, a) == CASE f = "rph" -> Rzyx(a[3], a[2], a[1], M0) [] f = "rphC" -> Rzyx(a[3], a[2], a[1], 1)
                 [] f = "zyx" -> Rzyx(a[1], a[2], a[3], 1) [] f = "ypr" -> Rzyx(a[1], a[2], a[3], M0)
                 [] f = "zxy" -> QProd(QZ(a[1], M0), QProd(QX(a[2], M0), QY(a[3], M0)))

(* ------------------------------------------------------- rational matrices  *)
RECURSIVE GcdV(_, _, _)
GcdV(v, n, g) == IF n = 0 \/ g = 1 THEN g ELSE GcdV(v, n - 1, Gcd(Abs(v[n]), g))
RECURSIVE GcdM(_, _, _)
GcdM(m, n, g) == IF n = 0 \/ g = 1 THEN g ELSE GcdM(m, n - 1, GcdV(m[n], Len(m[n]), g))
DivM(m, g) == IF g = 1 THEN m ELSE [i \in 1..Len(m) |-> [j \in 1..Len(m[i]) |-> m[i][j] \div g]]
RatG(m, d, g) == Now([m |-> DivM(m, g), d |-> d \div g])
RatM(m, d) == RatG(m, d, GcdM(m, Len(m), d))
Rat(m, d) == RatM(Now(m), d)           \* d > 0
RMM(a, b) == Rat(MM(a.m, b.m), a.d * b.d)
RT(a) == [m |-> T(a.m), d |-> a.d]
RAddG(a, b, g) == Rat([i \in 1..Len(a.m) |-> [j \in 1..Len(a.m[i]) |-> a.m[i][j] * (b.d \div g) + b.m[i][j] * (a.d \div g)]], (a.d \div g) * b.d)
RAdd(a, b) == RAddG(a, b, Gcd(a.d, b.d))
Cong(a, u) == RMM(RMM(a, u), RT(a))                   \* a u a^T
RScale(n, d, a) == Rat(MScale(n, a.m), d * a.d)
RIs(r, a) == AllNum(r, a.m, a.d)                      \* the recorded fractions are a
Eye(n) == [i \in 1..n |-> [j \in 1..n |-> IF i = j THEN 1 ELSE 0]]
ZeroM(n, k) == [i \in 1..n |-> [j \in 1..k |-> 0]]
Col(v) == [i \in 1..Len(v) |-> <<v[i]>>]
Block(m, i, j, n, k) == [a \in 1..n |-> [b \in 1..k |-> m[i + a - 1][j + b - 1]]]
Most(a, b) == IF a > b THEN a ELSE b
RECURSIVE MaxV(_, _)
MaxV(v, n) == IF n = 0 THEN 0 ELSE Most(Abs(v[n]), MaxV(v, n - 1))
RECURSIVE MaxM(_, _)
MaxM(m, n) == IF n = 0 THEN 0 ELSE Most(MaxV(m[n], Len(m[n])), MaxM(m, n - 1))
Max(m) == MaxM(m, Len(m))
===============================================================================
