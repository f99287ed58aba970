----------------------------- MODULE AssertsMC --------------------------------
(* Every macro with operands around the boundary, every operand type.         *)
EXTENDS Asserts, Json
CONSTANTS Mode, Depth
VARIABLES hist
N(q) == [s |-> "num", q |-> q]
Special == { [s |-> x, q |-> 0] : x \in {"nan", "inf", "ninf"} }
Reals == { N(q) : q \in -Depth..Depth } \cup Special
Ints == { N(q) : q \in -Depth..Depth }
One == {"LT", "GE", "LE", "GT", "EQ", "NE"}
Two == {"GE_LT", "GT_LE", "GE_LE", "NEAR"}
None == {"POSITIVE", "NONNEGATIVE", "NEGATIVE", "NONPOSITIVE", "ZERO", "FINITE", "NOTNAN"}
Ops(S) == S \cup { o \o "_DBG" : o \in S }
Call(S, ty, V, B, U) == { [op |-> o, ty |-> ty, v |-> v, b |-> b, u |-> u] : o \in Ops(S), v \in V, b \in B, u \in U }
Calls ==
  CASE Mode = "reals" -> Call(None, "double", Reals, {Zero}, {Zero}) \cup Call(One, "double", Reals, Reals, {Zero}) \cup Call(Two, "double", Reals, Reals, Reals)
    [] Mode = "ints" -> Call(None, "int", Ints, {Zero}, {Zero}) \cup Call(One, "int", Ints, Ints, {Zero}) \cup Call(Two, "int", Ints, Ints, Ints)
    [] OTHER -> Call({"TRUE", "FALSE"}, "bool", {N(0), N(1)}, {Zero}, {Zero})
        \cup { [op |-> o, ty |-> t, v |-> v, b |-> Zero, u |-> Zero] : o \in {"NULL", "NOTNULL", "NOTNULL_DBG"}, t \in {"ptr", "shared"}, v \in {N(0), N(1)} }
        \cup { [op |-> o, ty |-> "bool", v |-> v, b |-> Zero, u |-> Zero] : o \in {"THROW", "THROW_DBG", "THROW_SFP", "throw"}, v \in {N(0), N(1)} }
Init == \E c \in Calls : hist = <<c>>
Next == FALSE /\ UNCHANGED hist
Bound == PrintT("@H " \o ToJson(hist))
(* the macros that exclude one another, and the complements                   *)
Laws == \A e \in {hist[1]} : LET v == e.v  b == e.b  u == e.u IN
  /\ ~(Nan(v) \/ Nan(b)) => (Holds("LT", v, b, u) # Holds("GE", v, b, u)) /\ (Holds("GT", v, b, u) # Holds("LE", v, b, u)) /\ (Holds("EQ", v, b, u) = (Holds("LE", v, b, u) /\ Holds("GE", v, b, u)))
  /\ Holds("GE_LE", v, b, u) = (Holds("GE_LT", v, b, u) \/ (Eq(v, u) /\ Le(b, v)))
  /\ Holds("GT_LE", v, b, u) => Holds("GE_LE", v, b, u)
  /\ Holds("EQ", v, b, u) # Holds("NE", v, b, u)
  /\ ~Nan(v) => Holds("POSITIVE", v, b, u) # Holds("NONPOSITIVE", v, b, u) /\ Holds("ZERO", v, b, u) = (Holds("NONNEGATIVE", v, b, u) /\ Holds("NONPOSITIVE", v, b, u))
  /\ Near(v, b, u) = Near(b, v, u)
===============================================================================
