------------------------------ MODULE ArchiveMC ------------------------------
(* Exhaustive model of Archive with small constants, and generator of         *)
(* behaviours for the conformance driver (hist, printed at length Depth).     *)
EXTENDS Archive, Json
CONSTANTS Depth, Mode
VARIABLES st, hist
vars == <<st, hist>>

NA == <<97>>            \* "a"
NB == <<98, 95, 49>>    \* "b_1"
NBad == <<49, 98>>      \* "1b"
V0 == <<0, 0, 0, 0, 0, 0, 0, 0>>
V1 == <<66, 66, 65, 66, 83, 66, 66, 66>>   \* data bytes that look like tags
MNames == {NA, NB}

SetOps ==
  { [op |-> "setMatrix", a |-> 1, n |-> n, rr |-> 1, c |-> 1, d |-> V1] : n \in {NA, NB, NBad} } \cup
  { [op |-> "setMatrix", a |-> 1, n |-> NA, rr |-> 0, c |-> 2, d |-> <<>>] } \cup
  { [op |-> "setVector", a |-> 1, n |-> n, rr |-> 2, c |-> 1, d |-> V0 \o V1] : n \in {NA} } \cup
  { [op |-> "setScalar", a |-> i, n |-> NA, rr |-> 1, c |-> 1, d |-> V0] : i \in 1..2 } \cup
  { [op |-> "createMatrix", a |-> 1, n |-> n, rr |-> 1, c |-> 2, d |-> V1 \o V0, ow |-> o] : n \in {NA, NB}, o \in BOOLEAN } \cup
  { [op |-> "setString", a |-> i, n |-> n, d |-> <<66, 0>>] : n \in {NA, NBad}, i \in 1..2 } \cup
  { [op |-> "clearName", a |-> 1, n |-> n] : n \in {NA, NB} } \cup
  { [op |-> "clear", a |-> 2] }
GetOps ==
  { [op |-> o, a |-> 1, n |-> n] : o \in {"getMatrix", "getVector", "getScalar", "getString", "find"}, n \in {NA, NB} }
FileOps ==
  { [op |-> "save", a |-> 1, f |-> 1, names |-> ns, via |-> "path"] : ns \in {<<>>, <<NA>>} } \cup
  { [op |-> "append", a |-> i, f |-> 1, names |-> ns, via |-> "path"] : ns \in {<<>>, <<NB>>}, i \in 1..2 } \cup
  { [op |-> "load", a |-> 2, f |-> 1, names |-> ns, via |-> "path"] : ns \in {<<>>, <<NA>>} } \cup
  { [op |-> "load", a |-> 1, f |-> 1, names |-> <<>>, via |-> "str"] } \cup
  { [op |-> "trunc", a |-> 1, f |-> 1, kk |-> k] : k \in {0, 1, 33, 41, 42, 50, 51, 52, 90} }

Ops == CASE Mode = "map"  -> SetOps \cup GetOps
         [] Mode = "file" -> SetOps \cup FileOps
         [] Mode = "codec" -> SetOps
         [] Mode = "mc"   -> SetOps \cup FileOps

Init == st = InitState /\ hist = <<>>
Next == \E e \in Ops : \E o \in Outcomes(st, e) :
           /\ st' = o.s
           /\ hist' = IF Mode \in {"mc", "codec"} THEN <<>> ELSE Append(hist, e)

(* generation: stop at Depth and print the calls made *)
GenBound == IF Len(hist) = Depth THEN PrintT("@H " \o ToJson(hist)) /\ FALSE ELSE TRUE
(* in simulation mode the state constraint only ends the behaviour *)
FileBound == Len(st.file[1]) <= Depth

Inv == OneKindPerName(st) /\ OnlyValidNames(st) /\ WellShaped(st)
InvFile == RoundTrip(st) /\ CrashSafe(st) /\ LastByteNeeded(st)
=============================================================================
