----------------------------- MODULE LoggingTrace -----------------------------
EXTENDS Logging, Json, IOUtils
Hist == JsonDeserialize(IOEnv.TRACE)
VARIABLES tid, pos, st, bad
TInit == tid \in 1..Len(Hist) /\ pos = 0 /\ st = InitState /\ bad = FALSE
Exc(e) == "t" \in DOMAIN e.r
TNext == /\ ~bad /\ pos < Len(Hist[tid])
         /\ LET e == Hist[tid][pos + 1] N == IF e.r.k = "exc" THEN {} ELSE Next1(st, e) IN
            IF N = {} THEN bad' = TRUE /\ st' = st ELSE bad' = FALSE /\ st' \in N
         /\ pos' = pos + 1 /\ tid' = tid
TAccepted == ~bad
===============================================================================
