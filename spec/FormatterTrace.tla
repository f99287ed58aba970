---------------------------- MODULE FormatterTrace ----------------------------
EXTENDS Formatter, Json, IOUtils
Hist == JsonDeserialize(IOEnv.TRACE)
VARIABLES tid, pos, st, bad
TInit == tid \in 1..Len(Hist) /\ pos = 0 /\ st = InitState /\ bad = FALSE
TNext ==
  /\ ~bad /\ pos < Len(Hist[tid])
  /\ LET m == Next1(st, Hist[tid][pos + 1])
     IN /\ pos' = pos + 1 /\ tid' = tid
        /\ IF m = {} THEN bad' = TRUE /\ st' = st ELSE bad' = FALSE /\ st' = CHOOSE s \in m : TRUE
TAccepted == ~bad
===============================================================================
