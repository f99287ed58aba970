------------------------------ MODULE TimeCorrMC ------------------------------
(* Exhaustive model: all observation sequences over a small grid, with the    *)
(* history of observations kept to state the promises; generator of call      *)
(* sequences for the conformance driver.                                      *)
EXTENDS TimeCorr, TLC, Json
CONSTANTS Mode, Depth, MaxY
VARIABLES st, obs, pobs, sw, hist
vars == <<st, obs, pobs, sw, hist>>
(* obs: observations the active corrector must have seen; pobs: since the     *)
(* pending one was created; sw: number of switches                            *)

LastX == IF obs = <<>> THEN 0 ELSE obs[Len(obs)][1]
Rec(e) == IF Mode \in {"gen2", "gen3"} THEN Append(hist, e) ELSE <<>>
Init == /\ st \in { [InitState EXCEPT !.cfg.ti = b] : b \in IF Mode \in {"gen2", "gen3"} THEN {FALSE} ELSE BOOLEAN }
        /\ obs = <<>> /\ pobs = <<>> /\ sw = 0 /\ hist = <<>>
Obs2 == \E dx \in 1..2, y \in 0..MaxY : LET q == <<LastX + dx, y>> IN
          /\ st' = After2(st, q) /\ obs' = Append(obs, q)
          /\ UNCHANGED <<pobs, sw>> /\ hist' = Rec([op |-> "corr", x |-> q[1], y |-> y])
Obs3 == \E dx \in (IF Mode = "gen3" THEN {1} ELSE 1..2), y \in 0..MaxY : LET q == <<LastX + dx, y>>
                                             per == 2
                                             s1 == After3(st, q, per)
                                             h1 == Push(st.h, q)
                                             sp == Span(h1)
                                             on == st.pon \/ HalfExceeded(st.cfg, sp, per)
                                             po == IF on THEN Append(pobs, q) ELSE <<>>
        IN /\ st' = s1
           /\ IF sp > per THEN obs' = po /\ pobs' = <<>> /\ sw' = sw + 1
              ELSE obs' = Append(obs, q) /\ pobs' = po /\ sw' = sw
           /\ hist' = Rec([op |-> "corr3", x |-> q[1], y |-> y, per |-> per])
Next == CASE Mode \in {"two", "gen2"} -> Obs2
          [] Mode \in {"three", "gen3"} -> Obs3
Bound == IF Mode \in {"two", "three"} THEN Len(obs) < Depth
         ELSE IF Len(hist) = Depth THEN PrintT("@H " \o ToJson(hist)) /\ FALSE ELSE TRUE

HullInv == IsLowerHull(st.h, obs)
LateInv == NeverLate(st.cfg, st.h, obs)
AffineInv == RecoversAffine(st.cfg, st.h, obs)
(* T02: the active corrector is that of exactly the observations since the   *)
(* pending one was created, before the last switch                           *)
MemoryInv == st.h = HullOf(obs) /\ (IF st.pon THEN st.p = HullOf(pobs) ELSE st.p = <<>> /\ pobs = <<>>)
===============================================================================
