------------------------------- MODULE Archive -------------------------------
(* sm::MatrixArchive: two archives and a set of files.                        *)
(* An archive maps names to matrices and, disjointly, names to strings.  A    *)
(* file is a sequence of bytes; the on-disk format (shared with the MATLAB    *)
(* scripts) is specified by Encode / Decode.  All bytes are integers 0..255,  *)
(* a matrix is [r, c, d] with d its 8*r*c data bytes, a name a byte sequence. *)
EXTENDS Integers, Sequences, FiniteSets, SequencesExt, TLC

Emp == [x \in {} |-> 0]

(* ------------------------------------------------------------- the names *)
IsAlpha(b) == (b >= 65 /\ b <= 90) \/ (b >= 97 /\ b <= 122)
IsDigit(b) == b >= 48 /\ b <= 57
NameSize == 32
ValidName(n) == /\ Len(n) >= 1 /\ Len(n) <= NameSize
                /\ IsAlpha(n[1])
                /\ \A i \in 2..Len(n) : IsAlpha(n[i]) \/ IsDigit(n[i]) \/ n[i] = 95

RECURSIVE LexLess(_, _)
LexLess(a, b) == IF a = <<>> THEN b # <<>>
                 ELSE IF b = <<>> THEN FALSE
                 ELSE IF a[1] # b[1] THEN a[1] < b[1]
                 ELSE LexLess(Tail(a), Tail(b))
Sorted(S) == SetToSortSeq(S, LexLess)

(* ---------------------------------------------------------- archive maps *)
Put(f, n, v) == [x \in DOMAIN f \cup {n} |-> IF x = n THEN v ELSE f[x]]
Del(f, n) == [x \in DOMAIN f \ {n} |-> f[x]]

EmptyArch == [m |-> Emp, s |-> Emp]
PutM(a, n, v) == [m |-> Put(a.m, n, v), s |-> Del(a.s, n)]
PutS(a, n, v) == [m |-> Del(a.m, n), s |-> Put(a.s, n, v)]

(* ------------------------------------------------------------ the format *)
U32Bytes(n) == << n % 256, (n \div 256) % 256, (n \div 65536) % 256, n \div 16777216 >>
U32(b) == b[1] + 256 * b[2] + 65536 * b[3] + 16777216 * b[4]
PadName(n) == [i \in 1..(NameSize - Len(n)) |-> 32] \o n
TagMatrix == 65
TagString == 83
TagEnd == 66

EncM(n, v) == <<TagMatrix>> \o PadName(n) \o U32Bytes(v.r) \o U32Bytes(v.c) \o v.d \o <<TagEnd>>
EncS(n, v) == <<TagString>> \o PadName(n) \o U32Bytes(Len(v)) \o v \o <<TagEnd>>

Selected(n, names) == names = {} \/ n \in names

RECURSIVE EncAllM(_, _), EncAllS(_, _)
EncAllM(a, ns) == IF ns = <<>> THEN <<>> ELSE EncM(ns[1], a.m[ns[1]]) \o EncAllM(a, Tail(ns))
EncAllS(a, ns) == IF ns = <<>> THEN <<>> ELSE EncS(ns[1], a.s[ns[1]]) \o EncAllS(a, Tail(ns))
Encode(a, names) ==
  EncAllM(a, Sorted({n \in DOMAIN a.m : Selected(n, names)})) \o
  EncAllS(a, Sorted({n \in DOMAIN a.s : Selected(n, names)}))

IsSpace(b) == b = 32 \/ (b >= 9 /\ b <= 13)
RECURSIVE UpToNul(_), TrimL(_), TrimR(_)
UpToNul(n) == IF n = <<>> \/ n[1] = 0 THEN <<>> ELSE <<n[1]>> \o UpToNul(Tail(n))
TrimL(n) == IF n # <<>> /\ IsSpace(n[1]) THEN TrimL(Tail(n)) ELSE n
TrimR(n) == IF n # <<>> /\ IsSpace(n[Len(n)]) THEN TrimR(SubSeq(n, 1, Len(n) - 1)) ELSE n
ReadName(b) == TrimR(TrimL(UpToNul(b)))

(* Blocks of a byte sequence from position p (0-based offset of what is read): *)
(* [ok, bl]: bl the complete well-formed blocks, ok iff nothing else remains.  *)
Bad(bl) == [ok |-> FALSE, bl |-> bl]
RECURSIVE DecodeFrom(_, _, _)
DecodeFrom(b, p, bl) ==
  LET left == Len(b) - p
      hdr  == 1 + NameSize
  IN IF left = 0 THEN [ok |-> TRUE, bl |-> bl]
     ELSE IF b[p+1] = TagMatrix THEN
       IF left < hdr + 8 THEN Bad(bl)
       ELSE LET n == ReadName(SubSeq(b, p + 2, p + hdr))
                r == U32(SubSeq(b, p + hdr + 1, p + hdr + 4))
                c == U32(SubSeq(b, p + hdr + 5, p + hdr + 8))
                big == r # 0 /\ c # 0 /\ (r > 4096 \/ c > 4096)
                sz == IF big THEN 0 ELSE IF r = 0 \/ c = 0 THEN 0 ELSE 8 * r * c
                q == p + hdr + 8
            IN IF big \/ left < hdr + 8 + sz + 1 THEN Bad(bl)
               ELSE IF b[q + sz + 1] # TagEnd THEN Bad(bl)
               ELSE DecodeFrom(b, q + sz + 1,
                      Append(bl, [kind |-> "m", n |-> n, v |-> [r |-> r, c |-> c, d |-> SubSeq(b, q + 1, q + sz)]]))
     ELSE IF b[p+1] = TagString THEN
       IF left < hdr + 4 THEN Bad(bl)
       ELSE LET n == ReadName(SubSeq(b, p + 2, p + hdr))
                sz == U32(SubSeq(b, p + hdr + 1, p + hdr + 4))
                q == p + hdr + 4
            IN IF sz > 1000000 \/ left < hdr + 4 + sz + 1 THEN Bad(bl)
               ELSE IF b[q + sz + 1] # TagEnd THEN Bad(bl)
               ELSE DecodeFrom(b, q + sz + 1, Append(bl, [kind |-> "s", n |-> n, v |-> SubSeq(b, q + 1, q + sz)]))
     ELSE Bad(bl)
Decode(b) == DecodeFrom(b, 0, <<>>)

(* Blocks that load() would store: it stops at a selected block of invalid name. *)
RECURSIVE Usable(_, _)
Usable(bl, names) ==
  IF bl = <<>> THEN <<>>
  ELSE IF Selected(bl[1].n, names) /\ ~ValidName(bl[1].n) THEN <<>>
  ELSE <<bl[1]>> \o Usable(Tail(bl), names)
RECURSIVE Apply(_, _, _)
Apply(a, bl, names) ==
  IF bl = <<>> THEN a
  ELSE LET x == bl[1]
           a2 == IF ~Selected(x.n, names) THEN a
                 ELSE IF x.kind = "m" THEN PutM(a, x.n, x.v) ELSE PutS(a, x.n, x.v)
       IN Apply(a2, Tail(bl), names)

LoadOk(b, names) == LET d == Decode(b) IN d.ok /\ Len(Usable(d.bl, names)) = Len(d.bl)

(* -------------------------------------------------------------- the calls *)
(* State: arch[1..2], file[1..3] (bytes), fex[1..3] (exists).  File 3 lies in  *)
(* a directory that does not exist: it can be neither written nor read.        *)
InitState == [arch |-> <<EmptyArch, EmptyArch>>, file |-> <<<<>>, <<>>, <<>>>>, fex |-> <<FALSE, FALSE, FALSE>>]

Obs(a) == [m |-> [i \in 1..Cardinality(DOMAIN a.m) |->
                    LET n == Sorted(DOMAIN a.m)[i] IN <<n, a.m[n].r, a.m[n].c, a.m[n].d>>],
           s |-> [i \in 1..Cardinality(DOMAIN a.s) |->
                    LET n == Sorted(DOMAIN a.s)[i] IN <<n, a.s[n]>>],
           sz |-> <<Cardinality(DOMAIN a.m) + Cardinality(DOMAIN a.s), Cardinality(DOMAIN a.m), Cardinality(DOMAIN a.s)>>]

Ok == [k |-> "ok"]
Exc == [k |-> "exc", t |-> "MatrixArchiveException"]

Out(st, e, a2, res) == { [s |-> [st EXCEPT !.arch[e.a] = a2], r |-> res @@ Obs(a2)] }
Keep(st, e, res) == Out(st, e, st.arch[e.a], res)

Set(st, e) ==     \* setMatrix, setMatrixXd, setVector, setVectorXd, setScalar
  LET a == st.arch[e.a] IN
  IF (e.op \in {"setVector", "setVectorXd"} /\ e.c # 1) \/ ~ValidName(e.n) THEN Keep(st, e, Exc)
  ELSE Out(st, e, PutM(a, e.n, [r |-> e.rr, c |-> e.c, d |-> e.d]), Ok)

Create(st, e) ==  \* createMatrix; the caller then fills the returned reference with e.d
  LET a == st.arch[e.a] IN
  IF ~ValidName(e.n) \/ (~e.ow /\ e.n \in DOMAIN a.m) THEN Keep(st, e, Exc)
  ELSE Out(st, e, PutM(a, e.n, [r |-> e.rr, c |-> e.c, d |-> e.d]), Ok)

SetString(st, e) ==
  IF ~ValidName(e.n) THEN Keep(st, e, Exc) ELSE Out(st, e, PutS(st.arch[e.a], e.n, e.d), Ok)

Get(st, e) ==
  LET a == st.arch[e.a] IN
  IF e.op = "getString" THEN
    IF e.n \in DOMAIN a.s THEN Keep(st, e, [k |-> "gs", v |-> a.s[e.n]]) ELSE Keep(st, e, Exc)
  ELSE IF e.n \notin DOMAIN a.m THEN Keep(st, e, Exc)
  ELSE LET v == a.m[e.n] IN
    IF e.op = "getVector" /\ v.c # 1 THEN Keep(st, e, Exc)
    ELSE IF e.op = "getScalar" /\ (v.c # 1 \/ v.r # 1) THEN Keep(st, e, Exc)
    ELSE Keep(st, e, [k |-> "gm", gr |-> v.r, gc |-> v.c, v |-> v.d])

Find(st, e) == Keep(st, e, [k |-> "bool", b |-> e.n \in DOMAIN st.arch[e.a].m])

Clear(st, e) == Out(st, e, EmptyArch, Ok)
ClearName(st, e) ==
  LET a == st.arch[e.a] IN Out(st, e, [m |-> Del(a.m, e.n), s |-> Del(a.s, e.n)], Ok)

Names(e) == { e.names[i] : i \in 1..Len(e.names) }

Save(st, e) ==
  IF e.f = 3 THEN Keep(st, e, Exc)
  ELSE LET b == Encode(st.arch[e.a], Names(e)) IN
       { [s |-> [st EXCEPT !.file[e.f] = b, !.fex[e.f] = TRUE], r |-> [k |-> "file", fb |-> b] @@ Obs(st.arch[e.a])] }
Append_(st, e) ==
  IF e.f = 3 THEN Keep(st, e, Exc)
  ELSE LET b == st.file[e.f] \o Encode(st.arch[e.a], Names(e)) IN
       { [s |-> [st EXCEPT !.file[e.f] = b, !.fex[e.f] = TRUE], r |-> [k |-> "file", fb |-> b] @@ Obs(st.arch[e.a])] }

Load(st, e) ==
  IF ~st.fex[e.f] THEN Keep(st, e, Exc)
  ELSE LET b == st.file[e.f]
           a == st.arch[e.a]
           bl == Usable(Decode(b).bl, Names(e))
       IN IF LoadOk(b, Names(e)) THEN Out(st, e, Apply(a, bl, Names(e)), Ok)
          ELSE UNION { Out(st, e, Apply(a, SubSeq(bl, 1, j), Names(e)), Exc) : j \in 0..Len(bl) }

(* faults: a write that stopped after k bytes, a damaged byte, a lost file *)
Trunc(st, e) == LET b == SubSeq(st.file[e.f], 1, IF e.kk < Len(st.file[e.f]) THEN e.kk ELSE Len(st.file[e.f])) IN
  { [s |-> [st EXCEPT !.file[e.f] = b], r |-> [k |-> "file", fb |-> b] @@ Obs(st.arch[e.a])] }
Poke(st, e) == LET b == IF e.kk \in 1..Len(st.file[e.f]) THEN [st.file[e.f] EXCEPT ![e.kk] = e.b] ELSE st.file[e.f] IN
  { [s |-> [st EXCEPT !.file[e.f] = b], r |-> [k |-> "file", fb |-> b] @@ Obs(st.arch[e.a])] }
RemoveFile(st, e) == { [s |-> [st EXCEPT !.file[e.f] = <<>>, !.fex[e.f] = FALSE], r |-> Ok @@ Obs(st.arch[e.a])] }

Outcomes(st, e) ==
  CASE e.op \in {"setMatrix", "setMatrixXd", "setVector", "setVectorXd", "setScalar"} -> Set(st, e)
    [] e.op = "createMatrix" -> Create(st, e)
    [] e.op = "setString" -> SetString(st, e)
    [] e.op \in {"getMatrix", "getVector", "getScalar", "getString"} -> Get(st, e)
    [] e.op = "find" -> Find(st, e)
    [] e.op = "clear" -> Clear(st, e)
    [] e.op = "clearName" -> ClearName(st, e)
    [] e.op = "save" -> Save(st, e)
    [] e.op = "append" -> Append_(st, e)
    [] e.op = "load" -> Load(st, e)
    [] e.op = "trunc" -> Trunc(st, e)
    [] e.op = "poke" -> Poke(st, e)
    [] e.op = "remove" -> RemoveFile(st, e)

(* ------------------------------------------------------------ properties *)
OneKindPerName(st) == \A i \in 1..2 : DOMAIN st.arch[i].m \cap DOMAIN st.arch[i].s = {}
OnlyValidNames(st) == \A i \in 1..2 : \A n \in DOMAIN st.arch[i].m \cup DOMAIN st.arch[i].s : ValidName(n)
WellShaped(st) == \A i \in 1..2 : \A n \in DOMAIN st.arch[i].m :
                     LET v == st.arch[i].m[n] IN IF v.r = 0 \/ v.c = 0 THEN v.d = <<>> ELSE Len(v.d) = 8 * v.r * v.c
(* what is saved can be loaded again, and gives the same archive *)
RoundTrip(st) == \A i \in 1..2 :
   LET b == Encode(st.arch[i], {}) IN
     LoadOk(b, {}) /\ Apply(EmptyArch, Decode(b).bl, {}) = st.arch[i]
(* every crash point of a save: the rest is rejected, or is a proper set of   *)
(* complete blocks, each of them one of those being saved                     *)
CrashSafe(st) == \A i \in 1..2 :
   LET b == Encode(st.arch[i], {}) IN
   \A k \in 0..Len(b) :
      LET d == Decode(SubSeq(b, 1, k)) IN
        \A j \in 1..Len(d.bl) : LET x == d.bl[j] IN
           IF x.kind = "m" THEN x.n \in DOMAIN st.arch[i].m /\ st.arch[i].m[x.n] = x.v
                           ELSE x.n \in DOMAIN st.arch[i].s /\ st.arch[i].s[x.n] = x.v
(* the end tag of a complete file cannot be lost unnoticed *)
LastByteNeeded(st) == \A i \in 1..2 :
   LET b == Encode(st.arch[i], {}) IN Len(b) > 0 => ~Decode(SubSeq(b, 1, Len(b) - 1)).ok
=============================================================================
