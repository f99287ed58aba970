--------------------------- MODULE KinObjectsTrace ----------------------------
EXTENDS KinObjects, Json, IOUtils
Hist == JsonDeserialize(IOEnv.TRACE)
VARIABLES tid, pos, st, bad
TInit == tid \in 1..Len(Hist) /\ pos = 0 /\ st = SInit /\ bad = FALSE
TNext == /\ ~bad /\ pos < Len(Hist[tid]) /\ pos' = pos + 1 /\ tid' = tid
         /\ LET n == SNext(st, Hist[tid][pos + 1]) IN IF n = {} THEN bad' = TRUE /\ st' = st ELSE bad' = FALSE /\ st' \in n
TAccepted == ~bad
===============================================================================
