-------------------------------- MODULE PTree ---------------------------------
(* Trees of named texts and the operations of property trees on them.         *)
(* A node is [k, d, c]: its name, its text, its children in order.            *)
EXTENDS Integers, Sequences, FiniteSets, TLC
Ch(s, i) == SubSeq(s, i, i)
Leaf(k, d) == [k |-> k, d |-> d, c |-> <<>>]
Empty == Leaf("", "")

(* ---- paths: components between '/', a final '/' is ignored                 *)
RECURSIVE Split(_, _, _)
Split(s, i, cur) == IF i > Len(s) THEN IF cur = "" THEN <<>> ELSE <<cur>>
                    ELSE IF Ch(s, i) = "/" THEN <<cur>> \o Split(s, i + 1, "") ELSE Split(s, i + 1, cur \o Ch(s, i))
Comps(s) == Split(s, 1, "")
EndsWith(s, c) == Len(s) > 0 /\ Ch(s, Len(s)) = c
StartsWith(s, c) == Len(s) > 0 /\ Ch(s, 1) = c
Slashed(s) == IF EndsWith(s, "/") THEN s ELSE s \o "/"
Rooted(s) == IF StartsWith(s, "/") THEN s ELSE "/" \o s
(* the namespace of a tree and the name of a key in it                        *)
BaseNs(b) == Rooted(Slashed(b))
ChildNs(ns, b) == IF StartsWith(b, "/") THEN Slashed(b) ELSE Rooted(Slashed(ns \o b))
Qualify(ns, key) == LET q == IF StartsWith(key, "/") THEN key ELSE ns \o key
                    IN IF Len(q) > 1 /\ EndsWith(q, "/") THEN SubSeq(q, 1, Len(q) - 1) ELSE q
KeyComps(ns, key) == LET q == Qualify(ns, key) IN Comps(SubSeq(q, 2, Len(q)))
NsComps(ns) == Comps(SubSeq(ns, 2, Len(ns)))

(* ---- access                                                                *)
Index(n, k) == LET is == { i \in 1..Len(n.c) : n.c[i].k = k }
               IN IF is = {} THEN 0 ELSE CHOOSE i \in is : \A j \in is : i <= j
RECURSIVE Has(_, _), At(_, _), Put(_, _, _), Ensure(_, _)
Has(n, p) == p = <<>> \/ (Index(n, Head(p)) # 0 /\ Has(n.c[Index(n, Head(p))], Tail(p)))
At(n, p) == IF p = <<>> THEN n ELSE At(n.c[Index(n, Head(p))], Tail(p))
Put(n, p, d) == IF p = <<>> THEN [n EXCEPT !.d = d]
                ELSE LET i == Index(n, Head(p)) IN
                     IF i # 0 THEN [n EXCEPT !.c[i] = Put(@, Tail(p), d)]
                     ELSE [n EXCEPT !.c = Append(@, Put(Leaf(Head(p), ""), Tail(p), d))]
Ensure(n, p) == IF Has(n, p) THEN n ELSE Put(n, p, "")
RECURSIVE Flatten(_, _), FlattenAll(_, _)
(* all nodes in order, each after its parent: <<path, text>>                  *)
Flatten(n, p) == << <<p, n.d>> >> \o FlattenAll(n.c, p)
FlattenAll(c, p) == IF c = <<>> THEN <<>> ELSE Flatten(Head(c), Append(p, Head(c).k)) \o FlattenAll(Tail(c), p)
Nodes(n) == LET f == Flatten(n, <<>>) IN { f[i] : i \in 1..Len(f) }
Paths(n) == { x[1] : x \in Nodes(n) }
RECURSIVE Distinct(_)
Distinct(n) == /\ \A i, j \in 1..Len(n.c) : n.c[i].k = n.c[j].k => i = j
               /\ \A i \in 1..Len(n.c) : n.c[i].k # "" /\ Distinct(n.c[i])

(* ---- merging                                                               *)
Blanks == {" ", "\t", "\n", "\r"}
Blank(s) == \A i \in 1..Len(s) : Ch(s, i) \in Blanks
RECURSIVE MergeList(_, _, _, _)
(* [t, x]: the tree and whether a key was missing                             *)
MergeList(a, l, create, ignore) ==
  IF l = <<>> THEN [t |-> a, x |-> FALSE]
  ELSE LET p == Head(l)[1]  d == Head(l)[2] IN
       IF ignore /\ Blank(d) THEN MergeList(a, Tail(l), create, ignore)
       ELSE IF ~create /\ ~Has(a, p) THEN [t |-> a, x |-> TRUE]
       ELSE MergeList(Put(a, p, d), Tail(l), create, ignore)
Merge(a, b, create, ignore) == MergeList(a, Flatten(b, <<>>), create, ignore)

(* ---- texts and values                                                      *)
Digits == <<"0", "1", "2", "3", "4", "5", "6", "7", "8", "9">>
IsDigit(c) == \E k \in 1..10 : Digits[k] = c
DigitOf(c) == (CHOOSE k \in 1..10 : Digits[k] = c) - 1
RECURSIVE SkipBlanks(_, _), DigitRun(_, _), Number(_, _, _)
SkipBlanks(s, i) == IF i <= Len(s) /\ Ch(s, i) \in Blanks THEN SkipBlanks(s, i + 1) ELSE i
DigitRun(s, i) == IF i <= Len(s) /\ IsDigit(Ch(s, i)) THEN DigitRun(s, i + 1) ELSE i
(* the number made of the digits from i to j-1; -1: more than a 32 bit integer *)
Number(s, i, j) == IF i >= j THEN 0
                   ELSE LET n == Number(s, i, j - 1)  d == DigitOf(Ch(s, j - 1)) IN
                        IF n = -1 \/ n > 214748364 \/ (n = 214748364 /\ d > 7) THEN -1 ELSE n * 10 + d
Bad == [ok |-> FALSE, v |-> 0]
Sign(s, i) == i <= Len(s) /\ Ch(s, i) \in {"+", "-"}
ParseInt(s) ==
  LET i == SkipBlanks(s, 1)
      j == IF Sign(s, i) THEN i + 1 ELSE i
      e == DigitRun(s, j)
      n == Number(s, j, e)
      neg == Sign(s, i) /\ Ch(s, i) = "-"
      \* the least integer has one more value than the greatest
      least == neg /\ n = -1 /\ e > j /\ Number(s, j, e - 1) = 214748364 /\ Ch(s, e - 1) = "8"
  IN IF e = j \/ SkipBlanks(s, e) <= Len(s) THEN Bad
     ELSE IF least THEN [ok |-> TRUE, v |-> (0 - 2147483647) - 1]
     ELSE IF n = -1 THEN Bad
     ELSE [ok |-> TRUE, v |-> IF neg THEN 0 - n ELSE n]
ParseBool(s) ==
  LET i == SkipBlanks(s, 1)
      w(x) == i + Len(x) - 1 <= Len(s) /\ SubSeq(s, i, i + Len(x) - 1) = x /\ SkipBlanks(s, i + Len(x)) > Len(s)
      n == ParseInt(s)
  IN IF w("true") THEN [ok |-> TRUE, v |-> 1] ELSE IF w("false") THEN [ok |-> TRUE, v |-> 0]
     ELSE IF n.ok /\ n.v \in {0, 1} THEN n ELSE Bad
(* floating point texts: digits [. digits] [e [sign] digits]; the value is    *)
(* m * 10^e, m an integer of few digits                                       *)
ParseDouble(s) ==
  LET i == SkipBlanks(s, 1)
      j == IF Sign(s, i) THEN i + 1 ELSE i
      a == DigitRun(s, j)
      dot == a <= Len(s) /\ Ch(s, a) = "."
      b == IF dot THEN DigitRun(s, a + 1) ELSE a
      nfrac == IF dot THEN b - a - 1 ELSE 0
      hasE == b <= Len(s) /\ Ch(s, b) \in {"e", "E"}
      c == IF hasE THEN (IF Sign(s, b + 1) THEN b + 2 ELSE b + 1) ELSE b
      f == IF hasE THEN DigitRun(s, c) ELSE b
      digits == SubSeq(s, j, a - 1) \o (IF dot THEN SubSeq(s, a + 1, b - 1) ELSE "")
      m == Number(digits, 1, Len(digits) + 1)
      ex == IF hasE THEN (IF Ch(s, b + 1) = "-" THEN 0 - Number(s, c, f) ELSE Number(s, c, f)) ELSE 0
      neg == Sign(s, i) /\ Ch(s, i) = "-"
  IN IF digits = "" \/ (hasE /\ f = c) \/ SkipBlanks(s, f) <= Len(s) THEN [ok |-> FALSE, m |-> 0, e |-> 0, neg |-> FALSE]
     ELSE [ok |-> TRUE, m |-> m, e |-> ex - nfrac, neg |-> neg]
RECURSIVE Pow10(_)
Pow10(n) == IF n <= 0 THEN 1 ELSE 10 * Pow10(n - 1)
(* floor(|value| * 1024) of a number of moderate size, and whether it is exact *)
Moderate(p) == p.m # -1 /\ p.m < 1000000 /\ p.e <= 3 /\ p.e >= -6 /\ (p.e > 0 => p.m < 1000)
Scaled(p) == IF p.e >= 0 THEN [q |-> p.m * Pow10(p.e) * 1024, exact |-> TRUE]
             ELSE LET d == Pow10(0 - p.e) IN
                  \* m * 1024 / d without leaving 32 bits
                  LET whole == p.m \div d  rest == p.m % d IN
                  [q |-> whole * 1024 + ((rest * 1024) \div d), exact |-> (rest * 1024) % d = 0]
(* does a recorded number [neg, q, exact, big] denote this text?              *)
DoubleIs(p, r) == p.ok /\ (Moderate(p) =>
                    /\ ~r.big /\ (p.m # 0 => r.neg = p.neg)
                    /\ LET s == Scaled(p) IN
                       IF s.exact THEN r.exact /\ r.q = s.q ELSE r.q \in {s.q, s.q + 1})

(* ---- the inline syntax: assignments path=value, groups path{...}           *)
(* state of the scan: i position, base the open groups' paths, cur the path   *)
(* being read, word, val: reading a value; acc the assignments                *)
Special == {",", "/", "=", "{", "}"}
Act(cur, word, val, acc) == \* end of an item
  IF val # "" THEN Append(acc, <<cur, word>>)
  ELSE IF word # "" THEN Append(acc, <<Append(cur, word), "">>) ELSE IF cur # <<>> THEN Append(acc, <<cur, "">>) ELSE acc
RECURSIVE Scan(_, _, _, _, _, _, _)
Scan(s, i, open, cur, word, val, acc) ==
  IF i > Len(s) THEN IF open # <<>> THEN [ok |-> FALSE, l |-> <<>>] ELSE [ok |-> TRUE, l |-> Act(cur, word, val, acc)]
  ELSE LET c == Ch(s, i)
           top == IF open = <<>> THEN <<>> ELSE open[Len(open)] IN
       CASE c = "," -> Scan(s, i + 1, open, top, "", "", IF cur = top /\ word = "" THEN acc ELSE Act(cur, word, val, acc))
         [] c = "/" -> Scan(s, i + 1, open, Append(cur, word), "", "", acc)
         [] c = "=" -> Scan(s, i + 1, open, Append(cur, word), "", "v", acc)
         [] c = "{" -> LET p == Append(cur, word) IN Scan(s, i + 1, Append(open, p), p, "", "", Append(acc, <<p, "">>))
         [] c = "}" -> IF open = <<>> THEN [ok |-> FALSE, l |-> <<>>]
                       ELSE LET rest == SubSeq(open, 1, Len(open) - 1)
                                up == IF rest = <<>> THEN <<>> ELSE rest[Len(rest)]
                            IN Scan(s, i + 1, rest, up, "", "", IF cur = top /\ word = "" THEN acc ELSE Act(cur, word, val, acc))
         [] OTHER -> Scan(s, i + 1, open, cur, word \o c, val, acc)
RECURSIVE Assign(_, _)
Assign(t, l) == IF l = <<>> THEN t
                ELSE Assign(IF Head(l)[2] = "" THEN Ensure(t, Head(l)[1]) ELSE Put(t, Head(l)[1], Head(l)[2]), Tail(l))
HasQuote(s) == \E i \in 1..Len(s) : Ch(s, i) = "\""
Inline(s) == IF HasQuote(s) THEN [ok |-> FALSE, t |-> Empty]
             ELSE LET r == Scan(s, 1, <<>>, <<>>, "", "", <<>>) IN [ok |-> r.ok, t |-> IF r.ok THEN Assign(Empty, r.l) ELSE Empty]

(* ---- what the file formats can represent                                   *)
RECURSIVE All(_, _)
All(P(_), n) == P(n) /\ \A i \in 1..Len(n.c) : All(P, n.c[i])
NameStart == {"a", "b", "c", "d", "e", "f", "g", "h", "i", "j", "k", "l", "m", "n", "o", "p", "q", "r", "s", "t", "u", "v", "w", "x", "y", "z",
              "A", "B", "C", "D", "E", "F", "G", "H", "I", "J", "K", "L", "M", "N", "O", "P", "Q", "R", "S", "T", "U", "V", "W", "X", "Y", "Z", "_"}
NameChar == NameStart \cup {"-", ".", "0", "1", "2", "3", "4", "5", "6", "7", "8", "9"}
XmlName(k) == k # "" /\ Ch(k, 1) \in NameStart /\ \A i \in 1..Len(k) : Ch(k, i) \in NameChar
Trimmed(s) == s = "" \/ (Ch(s, 1) \notin Blanks /\ Ch(s, Len(s)) \notin Blanks)
Clean(s) == Trimmed(s) /\ \A i \in 1..Len(s) : (Ch(s, i) \in {"\t", "\n", "\r"} => FALSE) /\ (i < Len(s) /\ Ch(s, i) = " " => Ch(s, i + 1) # " ")
OnlySpaces(s) == \A i \in 1..Len(s) : Ch(s, i) = " "
Comment == "<xmlcomment>"
XmlText(s, human) == IF human THEN Clean(s) ELSE (Blank(s) => OnlySpaces(s)) /\ \A i \in 1..Len(s) : Ch(s, i) # "\r"
XmlNode(human, n) == /\ XmlText(n.d, human)
                     /\ \A i \in 1..Len(n.c) : \/ XmlName(n.c[i].k)
                                               \/ n.c[i].k = Comment /\ n.c[i].c = <<>> /\ Clean(n.c[i].d)
                                                  /\ \A j \in 1..Len(n.c[i].d) : Ch(n.c[i].d, j) # "-"
AsciiChar == NameChar \cup Special \cup {" ", "\t", "\n", "\r", "<", ">", "&", "'", "\"", "\\", ";", ":", "#", "[", "]", "(", ")", "+", "*", "%", "!", "?", "|", "~", "^", "@", "$", "`"}
(* other bytes need not be text in any encoding                               *)
Ascii(s) == \A i \in 1..Len(s) : Ch(s, i) \in AsciiChar
RECURSIVE XmlOk(_, _), JsonOk(_), NoComments(_)
XmlOk(human, n) == XmlNode(human, n) /\ \A i \in 1..Len(n.c) : (n.c[i].k = Comment \/ XmlOk(human, n.c[i]))
JsonOk(n) == (n.c # <<>> => n.d = "") /\ Ascii(n.k) /\ Ascii(n.d) /\ \A i \in 1..Len(n.c) : JsonOk(n.c[i])
IniKey(k) == k # "" /\ Trimmed(k) /\ Ch(k, 1) \notin {";", "["} /\ \A i \in 1..Len(k) : Ch(k, i) \notin {"=", "\n", "]", "\r"}
IniValue(s) == Trimmed(s) /\ \A i \in 1..Len(s) : Ch(s, i) \notin {"\n", "\r"}
IniOk(n) == /\ Distinct(n)
            /\ \A i \in 1..Len(n.c) : LET x == n.c[i] IN
                 /\ IniKey(x.k) /\ IniValue(x.d) /\ (x.c # <<>> => x.d = "")
                 /\ \A j \in 1..Len(x.c) : x.c[j].c = <<>> /\ IniKey(x.c[j].k) /\ IniValue(x.c[j].d)
                 /\ \A j \in 1..Len(n.c) : (j < i /\ n.c[j].c # <<>>) => x.c # <<>>
(* Boost reads an escape after a quoted name as a line continuation           *)
QuoteKey(k) == k = "" \/ \E i \in 1..Len(k) : Ch(k, i) \in {" ", "\t", "{", "}", ";", "\n", "\""}
RECURSIVE InfoOk(_)
InfoOk(n) == ~(QuoteKey(n.k) /\ n.d # "" /\ Ch(n.d, 1) \in {"\n", "\r", "\\"}) /\ \A i \in 1..Len(n.c) : InfoOk(n.c[i])
Representable(n, fmt, human) ==
  /\ n.d = ""
  /\ CASE fmt = "xml" -> XmlOk(human, n) [] fmt = "json" -> JsonOk(n) [] fmt = "ini" -> IniOk(n) [] OTHER -> InfoOk(n)
NoComments(n) == [n EXCEPT !.c = [i \in 1..Len(SelectSeq(@, LAMBDA x : x.k # Comment)) |->
                                   NoComments(SelectSeq(@, LAMBDA x : x.k # Comment)[i])]]
===============================================================================
