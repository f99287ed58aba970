------------------------------ MODULE JobQueueMC ------------------------------
(* The user-level specification with client programs: what the properties     *)
(* J01-J04 promise is checked of it, for every interleaving, with liveness.   *)
EXTENDS JobQueue
CONSTANTS Progs   \* numbers of the client programs to check
VARIABLES s, pc, order, started, prog, req
vars == <<s, pc, order, started, prog, req>>
(* order: jobs in the order they entered the queue; started: in order of being taken *)
(* req: thread -> jobs scheduled before its pending wait() was called                *)

W(j) == <<"work", j>>
F(j) == <<"fut", j>>
G(j) == <<"get", j>>
X(o) == <<o, 0>>
Program ==
  << [n |-> 2, th |-> << <<W(1), W(2), X("wait")>>, <<F(3), G(3), X("wait")>> >>, fin |-> <<X("join"), X("destroy")>>],
     [n |-> 2, th |-> << <<W(1), X("wait"), W(2), X("wait")>>, <<F(3), X("empty"), G(3)>> >>, fin |-> <<X("destroy")>>],
     [n |-> 1, th |-> << <<W(1), W(2), W(3)>>, <<X("join")>> >>, fin |-> <<X("destroy")>>],
     [n |-> 3, th |-> << <<W(1), W(2)>>, <<W(3), X("stop"), X("join")>> >>, fin |-> <<X("destroy")>>],
     [n |-> 0, th |-> << <<W(1), X("empty")>>, <<X("stop")>> >>, fin |-> <<X("join"), X("destroy")>>],
     [n |-> 2, th |-> << <<W(1), X("wait")>>, <<W(2), X("wait")>>, <<F(3), G(3)>> >>, fin |-> <<X("destroy")>>] >>
P == Program[prog]
T == 1..Len(P.th)
Main == 0
Prg(t) == IF t = Main THEN P.fin ELSE P.th[t]
AllDone == \A t \in T : pc[t] > Len(P.th[t]) /\ t \notin DOMAIN s.pend

Init == /\ prog \in Progs
        /\ s = [InitState EXCEPT !.n = Program[prog].n, !.jobs = [j \in 1..4 |-> [kind |-> "fut", throws |-> j = 2]]]
        /\ pc = [t \in 0..3 |-> 1] /\ order = <<>> /\ started = <<>> /\ req = Emp

Sees(t, op) == IF op = "wait" THEN Put(req, t, { order[i] : i \in 1..Len(order) }) ELSE req
Call(t) == /\ t = Main => AllDone
           /\ pc[t] <= Len(Prg(t)) /\ t \notin DOMAIN s.pend
           /\ LET c == Prg(t)[pc[t]] IN
              /\ s' \in Visible(s, [k |-> "call", t |-> t, op |-> c[1], j |-> c[2]])
              /\ req' = Sees(t, c[1])
           /\ pc' = [pc EXCEPT ![t] = @ + 1] /\ UNCHANGED <<order, started, prog>>
Ret(t) == /\ t \in DOMAIN s.pend /\ s.pend[t].ph = "did"
          /\ s' = [s EXCEPT !.pend = Del(@, t)]
          /\ UNCHANGED <<pc, order, started, prog, req>>
Internal(t) == /\ t \in DOMAIN s.pend /\ s' \in Step(s, t)
               /\ order' = IF Len(s'.q) > Len(s.q) THEN Append(order, s'.q[Len(s'.q)]) ELSE order
               /\ UNCHANGED <<pc, started, prog, req>>
Take == s' \in Pop(s) /\ started' = Append(started, Head(s.q)) /\ UNCHANGED <<pc, order, prog, req>>
Start(j) == j \in s.pop /\ s' \in Visible(s, [k |-> "start", j |-> j]) /\ UNCHANGED <<pc, order, started, prog, req>>
End(j) == j \in s.run /\ s' \in Visible(s, [k |-> "end", op |-> "job", j |-> j]) /\ UNCHANGED <<pc, order, started, prog, req>>
Rep == s' \in Report(s) /\ UNCHANGED <<pc, order, started, prog, req>>
Next == \/ \E t \in 0..Len(P.th) : Call(t) \/ Ret(t) \/ Internal(t)
        \/ Take \/ Rep \/ \E j \in 1..4 : Start(j) \/ End(j)
Fair == /\ WF_vars(Take) /\ WF_vars(Rep) /\ \A j \in 1..4 : WF_vars(Start(j)) /\ WF_vars(End(j))
        /\ \A t \in 0..3 : WF_vars(t <= Len(P.th) /\ Call(t)) /\ WF_vars(Ret(t)) /\ WF_vars(Internal(t))
Spec == Init /\ [][Next]_vars /\ Fair

(* J01 *)
Fifo == \A i \in 1..Len(started) : started[i] = order[i]
Once == \A i, k \in 1..Len(started) : i # k => started[i] # started[k]
AtMostN == Cardinality(Busy(s)) <= s.n
(* J02: at the return of wait() everything scheduled before the call has ended *)
Barrier == \A t \in DOMAIN s.pend : s.pend[t].op = "wait" /\ s.pend[t].ph = "did" => req[t] \subseteq s.ended
EmptyExact == \A t \in DOMAIN s.pend : s.pend[t].op = "empty" /\ s.pend[t].ph = "did" => s.pend[t].v \in {"true", "false"}
(* J03 *)
NothingAfterJoin == \A t \in DOMAIN s.pend : s.pend[t].op \in {"join", "destroy"} /\ s.pend[t].ph = "did" => Busy(s) = {}
StoppedForGood == [][(\E t \in DOMAIN s.pend : s.pend[t].op \in {"join", "destroy"} /\ s.pend[t].ph = "did") => started' = started]_vars
(* J04 *)
GetAfterEnd == \A t \in DOMAIN s.pend : s.pend[t].op = "get" /\ s.pend[t].v = "result" => s.pend[t].j \in s.ended
Terminates == <>(pc[Main] > Len(P.fin) /\ s.pend = Emp)
===============================================================================
