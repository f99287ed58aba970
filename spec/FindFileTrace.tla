---------------------------- MODULE FindFileTrace -----------------------------
EXTENDS FindFile, Json, IOUtils
Hist == JsonDeserialize(IOEnv.TRACE)
VARIABLES tid, pos, st, bad
TInit == tid \in 1..Len(Hist) /\ pos = 0 /\ st = FInit /\ bad = FALSE
TNext == /\ ~bad /\ pos < Len(Hist[tid])
         /\ LET n == FNext(st, Hist[tid][pos + 1]) IN
            IF n = {} THEN bad' = TRUE /\ st' = st ELSE bad' = FALSE /\ st' \in n
         /\ pos' = pos + 1 /\ tid' = tid
TAccepted == ~bad
===============================================================================
