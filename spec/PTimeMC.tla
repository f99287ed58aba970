------------------------------- MODULE PTimeMC --------------------------------
(* Every day of some years, with the extreme times of the day.                *)
EXTENDS PTime, Json, TLC
CONSTANTS Mode, Depth
VARIABLES hist
Years == {1400, 1582, 1899, 1900, 1901, 1969, 1970, 1971, 1972, 2000, 2038, 2099, 2100, 2400, 9999}
Times == {<<0, 0>>, <<0, 1>>, <<86399, 999999>>, <<43200, 500000>>}
Init == \E y \in Years, m \in 1..12, t \in Times : \E d \in (IF Depth > 0 THEN 1..MonthLen(y, m) ELSE {1, 2, 28, MonthLen(y, m)}) :
           hist = <<[op |-> "conv", y |-> y, m |-> m, d |-> d, s |-> t[1], us |-> t[2]]>>
Next == FALSE /\ UNCHANGED hist
Bound == PrintT("@H " \o ToJson(hist))
(* consecutive days have consecutive numbers, and 1970-01-01 is day 0 *)
E == hist[1]
Laws == /\ Days(1970, 1, 1) = 0
        /\ Days(E.y, E.m, E.d) + 1 = IF E.d < MonthLen(E.y, E.m) THEN Days(E.y, E.m, E.d + 1) ELSE IF E.m < 12 THEN Days(E.y, E.m + 1, 1) ELSE Days(E.y + 1, 1, 1)
===============================================================================
