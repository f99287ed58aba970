------------------------------ MODULE Formatter -------------------------------
(* The log line formatter: a format string in which ${name} with a name of    *)
(* letters is a token; known tokens stand for parts of the event, the names   *)
(* in the table of extra tokens for their entry, everything else is literal.  *)
EXTENDS Integers, Sequences, FiniteSets, TLC
Ch(s, i) == SubSeq(s, i, i)
Letters == {"a", "b", "c", "d", "e", "f", "g", "h", "i", "j", "k", "l", "m", "n", "o", "p", "q", "r", "s", "t", "u", "v", "w", "x", "y", "z",
            "A", "B", "C", "D", "E", "F", "G", "H", "I", "J", "K", "L", "M", "N", "O", "P", "Q", "R", "S", "T", "U", "V", "W", "X", "Y", "Z"}
RECURSIVE LettersFrom(_, _)
LettersFrom(s, i) == IF i <= Len(s) /\ Ch(s, i) \in Letters THEN 1 + LettersFrom(s, i + 1) ELSE 0
(* number of letters of the token that starts at i; 0: none starts there      *)
TokenAt(s, i) == IF i + 3 <= Len(s) /\ SubSeq(s, i, i + 1) = "${"
                 THEN LET n == LettersFrom(s, i + 2) IN IF n > 0 /\ i + 2 + n <= Len(s) /\ Ch(s, i + 2 + n) = "}" THEN n ELSE 0
                 ELSE 0
Severity == <<"  ALL", "FINES", "VERBO", "FINER", "TRACE", " FINE", "DEBUG", " INFO", " WARN", "ERROR", "FATAL">>
ColourNumber == <<"92", "92", "92", "92", "92", "92", "32", "0", "33", "31", "91">>
Esc(esc, n) == esc \o "[" \o n \o "m"
Known == {"severity", "message", "time", "thread", "file", "line", "function", "streamname"}
Value(ex, e, thr, name) ==
  CASE name = "severity" -> Severity[e.lv + 1]
    [] name = "message" -> e.m
    [] name = "time" -> e.t
    [] name = "thread" -> thr
    [] name = "file" -> e.file
    [] name = "line" -> ToString(e.line)
    [] name = "function" -> e.fn
    [] name = "streamname" -> e.st
    [] OTHER -> IF name \in DOMAIN ex THEN ex[name] ELSE "${" \o name \o "}"
RECURSIVE Expand(_, _, _, _, _)
Expand(f, i, ex, e, thr) ==
  IF i > Len(f) THEN ""
  ELSE LET n == TokenAt(f, i) IN
       IF n = 0 THEN Ch(f, i) \o Expand(f, i + 1, ex, e, thr)
       ELSE Value(ex, e, thr, SubSeq(f, i + 2, i + 1 + n)) \o Expand(f, i + 3 + n, ex, e, thr)
(* state: format, extra tokens, colour; esc is the escape character           *)
Default == "[${severity}] [${time}]: ${message}"
InitState == [f |-> Default, ex |-> <<>>, col |-> TRUE]
Line(s, e, thr, esc) == LET x == Expand(s.f, 1, s.ex, e, thr)
                        IN (IF s.col THEN Esc(esc, ColourNumber[e.lv + 1]) \o x \o Esc(esc, "0") ELSE x) \o "\n"
Without(ex, n) == [k \in DOMAIN ex \ {n} |-> ex[k]]
After(s, e) == CASE e.op = "new" -> [f |-> IF e.env THEN e.f ELSE Default, ex |-> <<>>, col |-> TRUE]
                 [] e.op = "init" -> [s EXCEPT !.f = e.f]
                 [] e.op = "color" -> [s EXCEPT !.col = e.on]
                 [] e.op = "extra" -> [s EXCEPT !.ex = (e.n :> e.v) @@ Without(s.ex, e.n)]
                 [] e.op = "unextra" -> [s EXCEPT !.ex = Without(s.ex, e.n)]
                 [] OTHER -> s
Next1(s, e) == IF e.op \in {"print", "logger", "thread"}
               THEN IF e.r.k = "line" /\ e.r.s = Line(s, e.e, e.r.thr, e.r.esc) THEN {s} ELSE {}
               ELSE IF e.r.k = "ok" /\ e.r.f = After(s, e).f THEN {After(s, e)} ELSE {}
===============================================================================
