------------------------------- MODULE JobQueue -------------------------------
(* sm::JobQueue as its users see it: calls and returns of the public          *)
(* functions, starts and ends of jobs.  Everything a worker or a call does    *)
(* in between is one of the atomic internal steps Hidden.                     *)
(*                                                                            *)
(* State: n       number of workers (0: not started)                          *)
(*        jobs    job -> [kind, throws]                                       *)
(*        kill    a stop was requested                                        *)
(*        q       waiting jobs, in the order they were scheduled              *)
(*        pop     jobs taken by a worker and not yet started                  *)
(*        run     jobs being executed                                         *)
(*        fin     jobs ended whose worker has not reported back               *)
(*        ended   jobs that have ended                                        *)
(*        gone    the queue was destroyed                                     *)
(*        pend    thread -> pending call [op, j, ph, v]                       *)
EXTENDS Integers, Sequences, FiniteSets, TLC

Emp == [x \in {} |-> 0]
InitState == [n |-> 0, jobs |-> Emp, kill |-> FALSE, q |-> <<>>, pop |-> {}, run |-> {}, fin |-> {}, ended |-> {},
              gone |-> FALSE, pend |-> Emp]
Put(f, k, v) == [x \in DOMAIN f \cup {k} |-> IF x = k THEN v ELSE f[x]]
Del(f, k) == [x \in DOMAIN f \ {k} |-> f[x]]

Busy(s) == s.pop \cup s.run \cup s.fin
IsSched(op) == op \in {"work", "fut", "futs", "futv"}
Did(s, t, v) == [s EXCEPT !.pend[t].ph = "did", !.pend[t].v = v]

(* ------------------------------------------------------- internal steps *)
Pop(s) == IF ~s.kill /\ s.q # <<>> /\ Cardinality(Busy(s)) < s.n
          THEN {[s EXCEPT !.pop = @ \cup {Head(s.q)}, !.q = Tail(@)]} ELSE {}
Report(s) == { [s EXCEPT !.fin = @ \ {j}] : j \in s.fin }
Step(s, t) ==
  LET c == s.pend[t] IN
  IF c.ph = "did" THEN {}
  ELSE CASE IsSched(c.op) -> {[Did(s, t, "") EXCEPT !.q = Append(@, c.j)]}
         [] c.op = "start" -> {}
         [] c.op = "wait" -> IF s.q = <<>> /\ Busy(s) = {} THEN {Did(s, t, "")} ELSE {}
         [] c.op = "empty" -> {Did(s, t, IF s.q = <<>> THEN "true" ELSE "false")}
         [] c.op = "stop" -> {[Did(s, t, "") EXCEPT !.kill = TRUE]}
         [] c.op \in {"join", "destroy"} ->
              IF c.ph = "called" THEN {[s EXCEPT !.kill = TRUE, !.pend[t].ph = "killed"]}
              ELSE IF Busy(s) = {} THEN {[Did(s, t, "") EXCEPT !.gone = @ \/ c.op = "destroy"]} ELSE {}
         [] c.op = "ready" ->
              (IF c.j \in s.ended \/ s.gone THEN {Did(s, t, "true")} ELSE {}) \cup
              (IF c.j \notin s.ended \/ c.j \in s.fin THEN {Did(s, t, "false")} ELSE {})
         [] c.op = "get" ->
              IF c.j \in s.ended THEN {Did(s, t, "result")} ELSE IF s.gone THEN {Did(s, t, "broken")} ELSE {}
Hidden(s) == Pop(s) \cup Report(s) \cup UNION { Step(s, t) : t \in DOMAIN s.pend }

(* what get() of the future of job j yields once the job has ended *)
Result(s, j) == IF s.jobs[j].throws THEN "JobError " \o ToString(j) \o " job " \o ToString(j)
                ELSE CASE s.jobs[j].kind = "fut" -> ToString(1000 + j)
                       [] s.jobs[j].kind = "futs" -> "result " \o ToString(j)
                       [] s.jobs[j].kind = "futv" -> "void"
                       [] OTHER -> "none"

(* ------------------------------------------------------- visible events *)
Visible(s, e) ==
  CASE e.k = "init" -> {[s EXCEPT !.jobs = [j \in { e.jobs[i].j : i \in 1..Len(e.jobs) } |->
                             LET i == CHOOSE x \in 1..Len(e.jobs) : e.jobs[x].j = j
                             IN [kind |-> e.jobs[i].kind, throws |-> e.jobs[i].throws]]]}
    [] e.k = "call" -> IF e.t \in DOMAIN s.pend THEN {}
                       ELSE {[s EXCEPT !.pend = Put(@, e.t, [op |-> e.op, j |-> e.j, ph |-> IF e.op = "start" THEN "did" ELSE "called", v |-> ""]),
                                       !.n = IF e.op = "start" THEN e.j ELSE @]}
    [] e.k = "ret" -> IF e.t \notin DOMAIN s.pend THEN {}
                      ELSE LET c == s.pend[e.t] IN
                           IF c.ph = "did" /\ c.op = e.op
                              /\ (CASE e.op \in {"empty", "ready"} -> e.v = c.v
                                    [] e.op = "get" -> e.v = (IF c.v = "result" THEN Result(s, c.j) ELSE c.v)
                                    [] OTHER -> TRUE)
                           THEN {[s EXCEPT !.pend = Del(@, e.t)]} ELSE {}
    [] e.k = "start" -> IF e.j \in s.pop THEN {[s EXCEPT !.pop = @ \ {e.j}, !.run = @ \cup {e.j}]} ELSE {}
    [] e.k = "end" /\ e.op = "job" -> IF e.j \in s.run THEN {[s EXCEPT !.run = @ \ {e.j}, !.fin = @ \cup {e.j}, !.ended = @ \cup {e.j}]} ELSE {}
    [] e.k = "end" /\ e.op = "program" -> IF s.pend = Emp THEN {s} ELSE {}
    [] OTHER -> {}                        \* "abort": deadlock, crash, touching a destroyed queue

RECURSIVE Closure(_)
Closure(S) == LET T == S \cup UNION { Hidden(s) : s \in S } IN IF T = S THEN S ELSE Closure(T)
(* the states possible after event e *)
After(S, e) == UNION { Visible(s, e) : s \in Closure(S) }
===============================================================================
