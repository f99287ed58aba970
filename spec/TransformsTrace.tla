---------------------------- MODULE TransformsTrace ---------------------------
EXTENDS Transforms, Json, TLC, IOUtils
Traces == JsonDeserialize(IOEnv.TRACE)
VARIABLES tid, pos, st, bad
TInit == tid \in 1..Len(Traces) /\ pos = 0 /\ st = SInit /\ bad = FALSE
TNext == /\ ~bad /\ pos < Len(Traces[tid])
         /\ LET e == Traces[tid][pos + 1] IN \E n \in { SNext(st, e) } :
              IF n = {} THEN bad' = TRUE /\ st' = st ELSE bad' = FALSE /\ st' \in n
         /\ pos' = pos + 1 /\ tid' = tid
TAccepted == ~bad
===============================================================================
