----------------------------- MODULE FormatterMC ------------------------------
EXTENDS Formatter, Json
CONSTANTS Mode, Depth
VARIABLES st, hist
Ev == [lv |-> 8, m |-> "a${x}", t |-> "1.5", file |-> "f", line |-> 7, fn |-> "g", st |-> "sm"]
Pieces == {"${message}", "${x}", "${line", "}", "$", "${time}"}
Formats == { a \o b \o c : a, b, c \in Pieces } \cup {""}
Calls == [op : {"init"}, f : IF Mode = "mc" THEN Formats ELSE {"", "${message}${x}", "a${line}${y}$"}]
         \cup [op : {"extra"}, n : {"x", "message"}, v : {"X", "${line}"}] \cup [op : {"unextra"}, n : {"x"}]
         \cup [op : {"color"}, on : BOOLEAN] \cup [op : {"print", "logger"}, e : {Ev}]
         \cup [op : {"new"}, env : BOOLEAN, f : {"${severity}|${x}"}]
Init == st = InitState /\ hist = <<>>
Next == \E c \in Calls : /\ st' = After(st, c)
                         /\ hist' = Append(hist, c)
Bound == IF Len(hist) < Depth THEN TRUE
         ELSE IF Mode = "gen" THEN PrintT("@H " \o ToJson(<<[op |-> "new", env |-> FALSE, f |-> ""]>> \o hist \o <<[op |-> "print", e |-> Ev]>>)) /\ FALSE ELSE FALSE
Text(s) == Expand(s.f, 1, s.ex, Ev, "T")
(* a format without a token is its own expansion; colour only adds a prefix   *)
(* and the reset                                                              *)
Literal == (\A i \in 1..Len(st.f) : TokenAt(st.f, i) = 0) => Text(st) = st.f
Neutral == LET c == Line([st EXCEPT !.col = TRUE], Ev, "T", "^")  p == Line([st EXCEPT !.col = FALSE], Ev, "T", "^")
           IN p = Text(st) \o "\n" /\ c = "^[33m" \o Text(st) \o "^[0m\n"
===============================================================================
