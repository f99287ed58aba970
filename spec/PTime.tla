-------------------------------- MODULE PTime ---------------------------------
(* Conversion of calendar times to seconds since 1970: days and seconds of    *)
(* the day are kept apart.                                                    *)
EXTENDS Integers, Sequences
Leap(y) == y % 4 = 0 /\ (y % 100 # 0 \/ y % 400 = 0)
MonthLen(y, m) == IF m = 2 THEN (IF Leap(y) THEN 29 ELSE 28) ELSE IF m \in {4, 6, 9, 11} THEN 30 ELSE 31
RECURSIVE DaysBefore(_, _)
DaysBefore(y, m) == IF m = 1 THEN 0 ELSE DaysBefore(y, m - 1) + MonthLen(y, m - 1)
Leaps(y) == (y \div 4) - (y \div 100) + (y \div 400)     \* leap years in 1..y
YearDays(y) == 365 * (y - 1970) + Leaps(y - 1) - Leaps(1969)
Days(y, m, d) == YearDays(y) + DaysBefore(y, m) + (d - 1)
Good(e) == e.r.k = "tv" /\ e.r.us = e.us /\ e.r.s = e.s /\ e.r.day = Days(e.y, e.m, e.d)
===============================================================================
