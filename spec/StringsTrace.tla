---------------------------- MODULE StringsTrace ------------------------------
EXTENDS Strings, Json, IOUtils, TLC
Hist == JsonDeserialize(IOEnv.TRACE)
VARIABLES tid, pos, st, bad
TInit == tid \in 1..Len(Hist) /\ pos = 0 /\ bad = FALSE /\ st = SInit
TNext == /\ ~bad /\ pos < Len(Hist[tid]) /\ pos' = pos + 1 /\ tid' = tid
         /\ LET N == SNext(st, Hist[tid][pos + 1]) IN IF N = {} THEN bad' = TRUE /\ st' = st ELSE bad' = FALSE /\ st' \in N
TAccepted == ~bad
===============================================================================
