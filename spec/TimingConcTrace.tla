---- MODULE TimingConcTrace ----
(* Recorded histories, merged into a prefix tree.  A history is accepted iff  *)
(* some choice of internal steps explains it.                                 *)
EXTENDS TimingConc, Json, IOUtils
Nodes == JsonDeserialize(IOEnv.TRACE)
VARIABLES node, poss
TInit == node = 1 /\ poss = {CInit}
TNext == /\ poss # {}
         /\ \E i \in 1..Len(Nodes[node].ch) : LET c == Nodes[node].ch[i] IN node' = c /\ poss' = After(poss, Nodes[c].e)
TAccepted == poss # {}
====
