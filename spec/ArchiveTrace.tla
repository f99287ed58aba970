----------------------------- MODULE ArchiveTrace -----------------------------
(* Recorded histories of the real MatrixArchive are behaviours of Archive.     *)
EXTENDS Archive, Json, IOUtils
Hist == JsonDeserialize(IOEnv.TRACE)
VARIABLES tid, pos, st, bad

TInit == tid \in 1..Len(Hist) /\ pos = 0 /\ st = InitState /\ bad = FALSE
TNext ==
  /\ ~bad /\ pos < Len(Hist[tid])
  /\ LET e == Hist[tid][pos + 1]
         m == { o \in Outcomes(st, e) : o.r = e.r }
     IN /\ pos' = pos + 1 /\ tid' = tid
        /\ IF m = {} THEN bad' = TRUE /\ st' = st ELSE bad' = FALSE /\ st' = (CHOOSE o \in m : TRUE).s
TAccepted == ~bad
TSafe == OneKindPerName(st) /\ OnlyValidNames(st) /\ WellShaped(st)
=============================================================================
