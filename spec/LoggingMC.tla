------------------------------ MODULE LoggingMC -------------------------------
(* All call sequences over a small alphabet of statements and configuration   *)
(* calls; ghosts count what every statement delivered.                        *)
EXTENDS Logging, Json
CONSTANTS Mode, Depth
VARIABLES st, hist, now, cnt, gap
vars == <<st, hist, now, cnt, gap>>
S(id, lv, s, kind, gen, var, inst, nest) == [op |-> "exec", id |-> id, lv |-> lv, st |-> s, kind |-> kind, cond |-> TRUE, rate |-> 1000000, now |-> now,
    m |-> "t", p |-> 0, n |-> Len(hist), nest |-> nest, gen |-> gen, var |-> var, inst |-> inst]
Execs == { S(7 * 16 + 0, 7, "sm", "plain", FALSE, 0, 0, FALSE),
           S(8 * 16 + 3, 8, "sm.a", "plain", FALSE, 3, 0, FALSE),
           S(9 * 16 + 8, 9, "sm", "once", FALSE, 8, 0, Mode = "gen"),
           S(1000 + 6 * 16 + 13, 6, "sm", "throttle", FALSE, 13, 1, FALSE),
           S(5000 + 16, 7, "sm.gen", "plain", TRUE, 0, 1, FALSE), S(5000 + 16, 5, "sm.gen", "plain", TRUE, 0, 1, FALSE) }
Calls == Execs \cup { [op |-> "level", lv |-> l] : l \in {5, 7, 9} }
         \cup { [op |-> o, s |-> n] : o \in {"enable", "disable"}, n \in {"a", "sm"} } \cup { [op |-> "enable", s |-> "sm.gen"] }
Init == st = InitState /\ hist = <<>> /\ now = 1000000000 /\ cnt = Emp /\ gap = Emp
Get(f, k, d) == IF k \in DOMAIN f THEN f[k] ELSE d
Do(e) == LET a == After(st, e) IN
         /\ st' = a.s
         /\ hist' = IF Mode = "gen" THEN Append(hist, e) ELSE hist
         /\ IF e.op = "exec" THEN /\ cnt' = IF e.kind = "once" THEN Put(cnt, e.id, Get(cnt, e.id, 0) + a.r.ev) ELSE cnt
                                  /\ gap' = IF e.kind = "throttle" /\ a.out # <<>> THEN Put(gap, e.id, [prev |-> Get(gap, e.id, [cur |-> 0]).cur, cur |-> e.now]) ELSE gap
            ELSE UNCHANGED <<cnt, gap>>
Next == \/ \E e \in Calls : Do(e) /\ UNCHANGED now
        \/ Mode = "mc" /\ now < 1000000000 + Depth * 500000 /\ now' = now + 500000 /\ UNCHANGED <<st, hist, cnt, gap>>
OnceOnce == \A i \in DOMAIN cnt : cnt[i] <= 1
ThrottleGap == \A i \in DOMAIN gap : gap[i].cur - gap[i].prev >= 1000000
TypeOK == st.lvl \in 0..11 /\ \A n \in st.on : StartsWith(n, "sm")
Names == FullName("a") = FullName("sm.a") /\ FullName("sm") = "sm" /\ FullName("smx") = "sm.smx" /\ \A i \in 1..11 : LevelOf(LevelNames[i]) = i - 1
Bound == IF Mode = "mc" THEN TRUE ELSE IF Len(hist) = Depth THEN PrintT("@H " \o ToJson(hist)) /\ FALSE ELSE TRUE
===============================================================================
