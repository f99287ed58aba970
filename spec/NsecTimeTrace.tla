---------------------------- MODULE NsecTimeTrace -----------------------------
EXTENDS NsecTime, Json, IOUtils, TLC
Hist == JsonDeserialize(IOEnv.TRACE)
VARIABLES tid, pos, bad
TInit == tid \in 1..Len(Hist) /\ pos = 0 /\ bad = FALSE
TNext == ~bad /\ pos < Len(Hist[tid]) /\ pos' = pos + 1 /\ tid' = tid /\ bad' = ~Answer(Hist[tid][pos + 1])
TAccepted == ~bad
===============================================================================
