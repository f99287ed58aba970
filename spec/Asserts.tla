------------------------------- MODULE Asserts --------------------------------
(* The assertion macros of sm_common.  A call names the macro (op, without    *)
(* SM_ASSERT_), how its first operand is written (form), the operands v, b, u *)
(* and the exception type; on says whether the _DBG macros are active in this *)
(* build.  A number is [s, q]: q/4 if s = "num" (q itself for integers), else *)
(* nan, inf or ninf.                                                          *)
EXTENDS Integers, Sequences, TLC
Num(v) == v.s = "num"
Nan(v) == v.s = "nan"
Lt(a, b) == CASE a.s = "nan" \/ b.s = "nan" -> FALSE
              [] a.s = "ninf" -> b.s # "ninf"
              [] b.s = "inf" -> a.s # "inf"
              [] a.s = "num" /\ b.s = "num" -> a.q < b.q
              [] OTHER -> FALSE
Eq(a, b) == ~Nan(a) /\ a.s = b.s /\ (Num(a) => a.q = b.q)
Le(a, b) == Lt(a, b) \/ Eq(a, b)
Zero == [s |-> "num", q |-> 0]
Abs(x) == IF x < 0 THEN -x ELSE x
(* |b - v| <= |u|                                                             *)
Near(v, b, u) ==
  CASE Nan(v) \/ Nan(b) \/ Nan(u) -> FALSE
    [] Num(v) /\ Num(b) -> (~Num(u)) \/ Abs(b.q - v.q) <= Abs(u.q)
    [] ~Num(v) /\ ~Num(b) /\ v.s = b.s -> FALSE        \* inf - inf is not a number
    [] OTHER -> ~Num(u)
Plain == {"TRUE", "FALSE", "GE_LT", "GT_LE", "GE_LE", "LT", "GE", "LE", "GT", "POSITIVE", "NONNEGATIVE", "NEGATIVE", "NONPOSITIVE", "ZERO",
          "NOTNULL", "NULL", "EQ", "NE", "NEAR", "FINITE", "NOTNAN"}
(* a macro, whether it is a _DBG one, what it asserts                         *)
Debug(op) == Len(op) > 4 /\ SubSeq(op, Len(op) - 3, Len(op)) = "_DBG"
Base(op) == IF Debug(op) THEN SubSeq(op, 1, Len(op) - 4) ELSE op
Holds(o, v, b, u) ==
  CASE o = "TRUE" -> v.q # 0  [] o = "FALSE" -> v.q = 0
    [] o = "GE_LT" -> Le(b, v) /\ Lt(v, u)  [] o = "GT_LE" -> Lt(b, v) /\ Le(v, u)  [] o = "GE_LE" -> Le(b, v) /\ Le(v, u)
    [] o = "LT" -> Lt(v, b)  [] o = "GE" -> Le(b, v)  [] o = "LE" -> Le(v, b)  [] o = "GT" -> Lt(b, v)
    [] o = "POSITIVE" -> Lt(Zero, v)  [] o = "NONNEGATIVE" -> Le(Zero, v)  [] o = "NEGATIVE" -> Lt(v, Zero)  [] o = "NONPOSITIVE" -> Le(v, Zero)  [] o = "ZERO" -> Eq(v, Zero)
    [] o = "NOTNULL" -> v.q # 0  [] o = "NULL" -> v.q = 0
    [] o = "EQ" -> Eq(v, b)  [] o = "NE" -> ~Eq(v, b)  [] o = "NEAR" -> Near(v, b, u)
    [] o = "FINITE" -> Num(v)  [] o = "NOTNAN" -> ~Nan(v)
    [] o = "throw" -> v.q # 0
    [] OTHER -> FALSE       \* THROW and THROW_SFP
(* what is asserted of operands that cannot be ordered is left open           *)
Ordered == {"GE_LT", "GT_LE", "GE_LE", "LT", "GE", "LE", "GT", "POSITIVE", "NONNEGATIVE", "NEGATIVE", "NONPOSITIVE"}
Open(o, v, b, u) == o \in Ordered /\ (Nan(v) \/ Nan(b) \/ Nan(u))
Active(op, on) == ~Debug(op) \/ on
(* the text of the message                                                    *)
Has(s, t) == \E i \in 0..(Len(s) - Len(t)) : SubSeq(s, i + 1, i + Len(t)) = t
Ends(s, t) == Len(s) >= Len(t) /\ SubSeq(s, Len(s) - Len(t) + 1, Len(s)) = t
Text(ty, v) == CASE v.s = "inf" -> "inf" [] v.s = "ninf" -> "-inf" [] v.s = "nan" -> "nan"
                 [] ty \in {"int", "unsigned"} -> ToString(v.q)
                 [] OTHER -> (IF v.q < 0 THEN "-" ELSE "") \o ToString(Abs(v.q) \div 4) \o <<"", ".25", ".5", ".75">>[(Abs(v.q) % 4) + 1]
Operand(form) == CASE form = "name" -> "val" [] form = "cond" -> "sel ? val : other" [] OTHER -> "ev(val)"
Sign == [LT |-> " < ", GE |-> " >= ", LE |-> " <= ", GT |-> " > ", EQ |-> " == ", NE |-> " != ", POSITIVE |-> " > ", NONNEGATIVE |-> " >= ", NEGATIVE |-> " < ", NONPOSITIVE |-> " <= ", ZERO |-> " == "]
(* the parts every message has, the condition, the values                     *)
Parts(e, o) ==
  LET n == Operand(e.form)  x == Text(e.ty, e.v)  y == Text(e.ty, e.b)  z == Text(e.ty, e.u) IN
  CASE o \in {"TRUE", "FALSE", "NULL", "NOTNULL", "NOTNAN"} -> {n}
    [] o = "FINITE" -> {n, "isfinite(" \o x}
    [] o \in {"LT", "GE", "LE", "GT", "EQ", "NE"} -> {n \o Sign[o] \o "bnd", x \o Sign[o] \o y}
    [] o \in {"POSITIVE", "NONNEGATIVE", "NEGATIVE", "NONPOSITIVE", "ZERO"} -> {n \o Sign[o] \o "0", x \o Sign[o] \o "0"}
    [] o = "NEAR" -> {n \o " == bnd", x \o " == " \o y}
    [] o = "GE_LT" -> {"bnd <= " \o n \o " < up", y \o " <= " \o x \o " < " \o z}
    [] o = "GT_LE" -> {"bnd < " \o n \o " <= up", y \o " < " \o x \o " <= " \o z}
    [] o = "GE_LE" -> {"bnd <= " \o n \o " <= up", y \o " <= " \o x \o " <= " \o z}
    [] OTHER -> {}
Message(e, o) ==
  /\ Ends(e.r.what, "because " \o e.msg \o "!")
  /\ Has(e.r.what, e.r.at)
  /\ o # "throw" => Has(e.r.what, "[Exc]")
  /\ Nan(e.v) \/ Nan(e.b) \/ Nan(e.u) \/ \A p \in Parts(e, o) : Has(e.r.what, p)
Caught(exc) == CASE exc \in {"Base", "Derived"} -> "Base" [] exc = "Logic" -> "logic_error" [] OTHER -> "runtime_error"
Thrown(e, o) == e.r.type = e.exc /\ e.r.as = Caught(e.exc) /\ e.r.notes = 1 /\ Message(e, o)
Silent(e) == e.r.type = "none" /\ (e.op # "throw" => e.r.notes = 0)     \* a message that is not needed is not formatted
(* a position in the source, printed in each way                              *)
Position(e) == LET t == e.file \o ":" \o ToString(e.line) \o ": " \o e.fn \o "()" IN e.r = [k |-> "position", str |-> t, conv |-> t, twice |-> t \o t]
GoodCall(e) ==
  /\ e.r.k = "assert"
  /\ LET o == Base(e.op) IN
     IF ~Active(e.op, e.on) THEN Silent(e) /\ e.r.evals = 0
     ELSE IF Open(o, e.v, e.b, e.u) THEN Silent(e) \/ Thrown(e, o)
     ELSE IF Holds(o, e.v, e.b, e.u) THEN Silent(e) ELSE Thrown(e, o)
Good(e) == IF e.op = "position" THEN Position(e) ELSE GoodCall(e)
===============================================================================
