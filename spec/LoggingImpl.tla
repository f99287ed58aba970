------------------------------ MODULE LoggingImpl -----------------------------
(* The design of LoggingGlobals at the level of its locks: cached enabled     *)
(* bits of the log locations, _locations_mutex (L), _named_stream_mutex (N),  *)
(* _print_mutex (P), recursion guard.  Checked: no deadlock, at most one      *)
(* thread inside the logger, the cached bits agree with the configuration     *)
(* whenever no change is in progress, every enabled statement is delivered.   *)
(* LockOrder = FALSE: enable/disable take N before L (the original code).     *)
EXTENDS Integers, Sequences, FiniteSets, TLC
CONSTANTS NT, K, LockOrder, InLog   \* threads, calls per thread, lock order repaired?, logger changes the level itself?
T == 1..NT
X == {1, 2}                         \* statements: 1 unnamed, 2 of stream "a"
VARIABLES lvl, on, cache, init, lock, pc, cur, todo, left, printing, inlog, delivered, wanted
vars == <<lvl, on, cache, init, lock, pc, cur, todo, left, printing, inlog, delivered, wanted>>
Free == 0
Eval(x) == 1 >= lvl /\ (x = 1 \/ on)
Init == /\ lvl = 1 /\ on = FALSE /\ cache = [x \in X |-> FALSE] /\ init = [x \in X |-> FALSE]
        /\ lock = [m \in {"L", "N", "P"} |-> Free] /\ pc = [t \in T |-> "idle"] /\ cur = [t \in T |-> 0]
        /\ todo = [t \in T |-> {}] /\ left = [t \in T |-> K] /\ printing = Free /\ inlog = {} /\ delivered = 0 /\ wanted = 0
Go(t, p) == pc' = [pc EXCEPT ![t] = p]
Acq(t, m) == lock[m] = Free /\ lock' = [lock EXCEPT ![m] = t]
Rel(m) == lock' = [x \in DOMAIN lock |-> IF x \in m THEN Free ELSE lock[x]]
U(v) == UNCHANGED v

Begin(t) == /\ pc[t] = "idle" /\ left[t] > 0 /\ left' = [left EXCEPT ![t] = @ - 1]
            /\ \/ \E x \in X : cur' = [cur EXCEPT ![t] = x] /\ Go(t, IF init[x] THEN "test" ELSE "reg")
               \/ \E l \in {0, 2} : cur' = [cur EXCEPT ![t] = l] /\ Go(t, "level")
               \/ \E b \in {0, 1} : cur' = [cur EXCEPT ![t] = b] /\ Go(t, "stream")
            /\ U(<<lvl, on, cache, init, lock, todo, printing, inlog, delivered, wanted>>)
(* a log statement *)
Reg(t) == /\ pc[t] = "reg" /\ Acq(t, "L") /\ Go(t, IF init[cur[t]] THEN "regdone" ELSE "regeval")
          /\ U(<<lvl, on, cache, init, cur, todo, left, printing, inlog, delivered, wanted>>)
RegEval(t) == /\ pc[t] = "regeval" /\ lock["N"] = Free      \* isNamedStreamEnabled
              /\ cache' = [cache EXCEPT ![cur[t]] = Eval(cur[t])] /\ init' = [init EXCEPT ![cur[t]] = TRUE] /\ Go(t, "regdone")
              /\ U(<<lvl, on, lock, cur, todo, left, printing, inlog, delivered, wanted>>)
RegDone(t) == /\ pc[t] = "regdone" /\ Rel({"L"}) /\ Go(t, "test")
              /\ U(<<lvl, on, cache, init, cur, todo, left, printing, inlog, delivered, wanted>>)
TestS(t) == /\ pc[t] = "test" /\ (IF cache[cur[t]] THEN Go(t, "print") /\ wanted' = wanted + 1 ELSE Go(t, "idle") /\ U(wanted))
           /\ U(<<lvl, on, cache, init, lock, cur, todo, left, printing, inlog, delivered>>)
PrintS(t) == /\ pc[t] = "print" /\ printing # t /\ Acq(t, "P") /\ printing' = t /\ Go(t, "in") /\ inlog' = inlog \cup {t}
            /\ U(<<lvl, on, cache, init, cur, todo, left, delivered, wanted>>)
InS(t) == /\ pc[t] = "in" /\ delivered' = delivered + 1
         /\ (IF InLog THEN Go(t, "level") /\ cur' = [cur EXCEPT ![t] = 0] ELSE Go(t, "out") /\ U(cur))
         /\ U(<<lvl, on, cache, init, lock, todo, left, printing, inlog, wanted>>)
OutS(t) == /\ pc[t] = "out" /\ printing' = Free /\ Rel({"P"}) /\ inlog' = inlog \ {t} /\ Go(t, "idle")
          /\ U(<<lvl, on, cache, init, cur, todo, left, delivered, wanted>>)
(* setLevel *)
Level(t) == /\ pc[t] = "level" /\ Acq(t, "L") /\ Go(t, IF lvl = cur[t] THEN "unlock" ELSE "update") /\ lvl' = cur[t]
            /\ todo' = [todo EXCEPT ![t] = { x \in X : init[x] }]
            /\ U(<<on, cache, init, cur, left, printing, inlog, delivered, wanted>>)
(* enable / disable a stream *)
Stream1(t) == /\ pc[t] = "stream" /\ Acq(t, IF LockOrder THEN "L" ELSE "N") /\ Go(t, "stream2")
              /\ U(<<lvl, on, cache, init, cur, todo, left, printing, inlog, delivered, wanted>>)
Stream2(t) == /\ pc[t] = "stream2" /\ Acq(t, IF LockOrder THEN "N" ELSE "L") /\ on' = (cur[t] = 1)
              /\ todo' = [todo EXCEPT ![t] = { x \in X : init[x] }] /\ Go(t, "update")
              /\ U(<<lvl, cache, init, cur, left, printing, inlog, delivered, wanted>>)
Update(t) == /\ pc[t] = "update" /\ todo[t] # {} /\ (lock["N"] \in {Free, t})
             /\ LET x == CHOOSE x \in todo[t] : \A y \in todo[t] : x <= y IN
                cache' = [cache EXCEPT ![x] = Eval(x)] /\ todo' = [todo EXCEPT ![t] = @ \ {x}]
             /\ Go(t, "update") /\ U(<<lvl, on, init, lock, cur, left, printing, inlog, delivered, wanted>>)
UpdateDone(t) == /\ pc[t] = "update" /\ todo[t] = {} /\ Go(t, "unlock")
                 /\ U(<<lvl, on, cache, init, lock, cur, todo, left, printing, inlog, delivered, wanted>>)
Unlock(t) == /\ pc[t] = "unlock" /\ Rel({m \in {"L", "N"} : lock[m] = t}) /\ Go(t, IF t \in inlog THEN "out" ELSE "idle")
             /\ U(<<lvl, on, cache, init, cur, todo, left, printing, inlog, delivered, wanted>>)
Step(t) == Begin(t) \/ Reg(t) \/ RegEval(t) \/ RegDone(t) \/ TestS(t) \/ PrintS(t) \/ InS(t) \/ OutS(t) \/ Level(t)
           \/ Stream1(t) \/ Stream2(t) \/ Update(t) \/ UpdateDone(t) \/ Unlock(t)
Done == \A t \in T : pc[t] = "idle" /\ left[t] = 0
Next == (\E t \in T : Step(t)) \/ (Done /\ UNCHANGED vars)
Spec == Init /\ [][Next]_vars /\ \A t \in T : WF_vars(Step(t))
OneInLog == Cardinality(inlog) <= 1 /\ (inlog # {} => lock["P"] \in inlog)
CacheExact == (lock["L"] = Free /\ lock["N"] = Free) => \A x \in X : init[x] => cache[x] = Eval(x)
NothingLost == Done => delivered = wanted
Terminates == <>Done
===============================================================================
