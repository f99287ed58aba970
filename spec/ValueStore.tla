------------------------------ MODULE ValueStore ------------------------------
(* Histories over sm::value_store: stores on property trees, layered,         *)
(* prefixed and verbose stores, value handles.                                *)
(* roots: trees the test can see, hid: trees only reachable through stores    *)
(* (number -n); heap: the store objects; vars: those the history names;       *)
(* handles: bound to a place of a tree or holding a fixed value.              *)
EXTENDS PropTree
VInit == [roots |-> <<>>, hid |-> <<>>, dbl |-> <<>>, heap |-> <<>>, vars |-> <<>>, handles |-> <<>>]
Tr(s, n) == IF n > 0 THEN s.roots[n] ELSE s.hid[0 - n]
SetTr(s, n, t) == IF n > 0 THEN [s EXCEPT !.roots[n] = t] ELSE [s EXCEPT !.hid[0 - n] = t]
Obj(s, v) == s.heap[s.vars[v]]
(* all store objects have the same fields; kind: pt, lay, pre, ver, nch       *)
Blank0 == [kind |-> "pt", root |-> 0, ns |-> "/", l |-> <<>>, mode |-> "", pre |-> "", b |-> 0, ext |-> FALSE, log |-> ""]
Pt(root, ns) == [Blank0 EXCEPT !.root = root, !.ns = ns, !.ext = TRUE]
Alloc(s, o) == [s EXCEPT !.heap = Append(@, o)]
New(s, o) == [s EXCEPT !.heap = Append(@, o), !.vars = Append(@, Len(s.heap) + 1)]
HidTree(s, t) == [s EXCEPT !.hid = Append(@, t)]

(* ---- prefixes                                                              *)
Pre(p, path) == Len(path) >= Len(p) /\ SubSeq(path, 1, Len(p)) = p
Rest(p, path) == SubSeq(path, Len(p) + 1, Len(path))
(* the key of the underlying store, if there is one                           *)
Maps(o, path) == o.mode = "add" \/ Pre(o.pre, path) \/ path \o "/" = o.pre
Mapped(o, path) == IF o.mode = "add" THEN o.pre \o path ELSE IF Pre(o.pre, path) THEN Rest(o.pre, path) ELSE ""

(* ---- reading                                                               *)
RECURSIVE Knows(_, _, _), KnowsAny(_, _, _), Look(_, _, _, _, _), LookIn(_, _, _, _, _), Supports(_, _)
Knows(s, id, path) ==
  LET o == s.heap[id] IN
  CASE o.kind = "pt" -> Has(Tr(s, o.root), KeyComps(o.ns, path))
    [] o.kind = "lay" -> KnowsAny(s, o.l, path)
    [] o.kind = "pre" -> Maps(o, path) /\ Knows(s, o.b, Mapped(o, path))
    [] OTHER -> Knows(s, o.b, path)
KnowsAny(s, l, path) == l # <<>> /\ (Knows(s, Head(l), path) \/ KnowsAny(s, Tail(l), path))
(* x: bound to root and p | text: the fixed text d | def: the default | exc   *)
R0 == [x |-> "exc", t |-> "", root |-> 0, p |-> <<>>, d |-> ""]
Look(s, id, ty, path, hasdef) ==
  LET o == s.heap[id] IN
  CASE o.kind = "pt" ->
         LET p == KeyComps(o.ns, path)  t == Tr(s, o.root)
             d == IF Has(t, p) THEN At(t, p).d ELSE "" IN
         IF Has(t, p) /\ Valid(ty, d) THEN IF hasdef THEN [R0 EXCEPT !.x = "text", !.d = d] ELSE [R0 EXCEPT !.x = "bound", !.root = o.root, !.p = p]
         ELSE IF hasdef THEN [R0 EXCEPT !.x = "def"]
         ELSE [R0 EXCEPT !.t = IF Has(t, p) THEN "value" ELSE "key"]
    [] o.kind = "lay" -> IF o.l = <<>> THEN IF hasdef THEN [R0 EXCEPT !.x = "def"] ELSE R0 ELSE LookIn(s, o.l, ty, path, hasdef)
    [] o.kind = "pre" -> IF Maps(o, path) THEN Look(s, o.b, ty, Mapped(o, path), hasdef)
                         ELSE IF hasdef THEN [R0 EXCEPT !.x = "def"] ELSE R0
    [] OTHER -> Look(s, o.b, ty, path, hasdef)
LookIn(s, l, ty, path, hasdef) ==
  IF Len(l) = 1 THEN Look(s, l[1], ty, path, hasdef)
  ELSE IF Knows(s, Head(l), path) THEN Look(s, Head(l), ty, path, FALSE) ELSE LookIn(s, Tail(l), ty, path, hasdef)
Supports(s, id) ==
  LET o == s.heap[id] IN
  CASE o.kind = "pt" -> TRUE [] o.kind = "nch" -> FALSE
    [] o.kind = "lay" -> \A i \in 1..Len(o.l) : Supports(s, o.l[i])
    [] o.kind = "pre" -> o.mode = "add" \/ Supports(s, o.b)
    [] OTHER -> Supports(s, o.b)

(* ---- children: [s, id], the object may be a new one                        *)
RECURSIVE Child(_, _, _), ChildOf(_, _, _), ChildLayers(_, _, _, _)
Made(s, o) == [s |-> Alloc(s, o), id |-> Len(s.heap) + 1]
(* what a reference does: a prefix where children are not supported           *)
Child(s, id, key) == IF Supports(s, id) THEN ChildOf(s, id, key)
                     ELSE Made(s, [Blank0 EXCEPT !.kind = "pre", !.mode = "add", !.pre = key \o "/", !.b = id])
ChildOf(s, id, key) ==
  LET o == s.heap[id] IN
  CASE o.kind = "pt" -> Made(s, Pt(o.root, ChildNs(o.ns, key)))
    [] o.kind = "lay" -> IF Len(o.l) = 1 THEN ChildOf(s, o.l[1], key)
                         ELSE LET c == ChildLayers(s, o.l, key, <<>>) IN Made(c.s, [Blank0 EXCEPT !.kind = "lay", !.l = c.l])
    [] o.kind = "pre" ->
         LET k == Slashed(key) IN
         CASE o.mode = "add" -> Made(s, [o EXCEPT !.pre = o.pre \o key \o "/"])
           [] key = "" -> Made(s, o)
           [] o.mode = "remove" /\ k = o.pre -> [s |-> s, id |-> o.b]
           [] o.mode = "remove" /\ Pre(k, o.pre) -> Made(s, [o EXCEPT !.pre = Rest(k, o.pre)])
           [] o.mode = "remove" /\ Pre(o.pre, key) -> Child(s, o.b, Rest(o.pre, key))
           [] OTHER -> LET h == HidTree(s, Empty) IN Made(h, Pt(0 - Len(h.hid), "/"))
    [] o.kind = "ver" -> LET c == ChildOf(s, o.b, key) IN
                         Made(c.s, [Blank0 EXCEPT !.kind = "ver", !.b = c.id, !.log = o.log \o "child(" \o key \o "):"])
ChildLayers(s, l, key, ids) == IF l = <<>> THEN [s |-> s, l |-> ids]
                               ELSE LET c == ChildOf(s, Head(l), key) IN ChildLayers(c.s, Tail(l), key, Append(ids, c.id))
NameIt(c) == [c.s EXCEPT !.vars = Append(@, c.id)]
RECURSIVE EChild(_, _, _)
EChild(s, id, key) ==
  LET o == s.heap[id] IN
  IF o.kind = "pt" THEN Made(s, Pt(o.root, ChildNs(o.ns, key)))
  ELSE LET c == EChild(s, o.b, key) IN
       Made(c.s, [Blank0 EXCEPT !.kind = "ver", !.b = c.id, !.ext = TRUE, !.log = o.log \o "EC(" \o key \o "):"])
(* all children: [ok, s, c], c a sequence of <<name, heap id>>                *)
RECURSIVE Kids(_, _), PtKids(_, _, _), LayKids(_, _, _), Wrap(_, _, _, _, _), Group(_, _, _)
NoKids(s) == [ok |-> FALSE, s |-> s, c |-> <<>>]
PtKids(s, c, acc) == IF c = <<>> THEN [ok |-> TRUE, s |-> s, c |-> acc]
                     ELSE LET h == HidTree(s, [Head(c) EXCEPT !.k = ""])  a == Alloc(h, Pt(0 - Len(h.hid), "/")) IN
                          PtKids(a, Tail(c), Append(acc, <<Head(c).k, Len(a.heap)>>))
Wrap(s, o, c, ec, acc) == IF c = <<>> THEN [ok |-> TRUE, s |-> s, c |-> acc]
                      ELSE LET tag == IF ec THEN "EC(" ELSE "child("
                               a == Alloc(s, [Blank0 EXCEPT !.kind = "ver", !.b = Head(c)[2], !.ext = ec, !.log = o.log \o tag \o Head(c)[1] \o "):"])
                           IN Wrap(a, o, Tail(c), ec, Append(acc, <<Head(c)[1], Len(a.heap)>>))
LayKids(s, l, acc) == IF l = <<>> THEN [ok |-> TRUE, s |-> s, c |-> acc]
                      ELSE LET k == Kids(s, Head(l)) IN IF ~k.ok THEN k ELSE LayKids(k.s, Tail(l), acc \o k.c)
NamesOf(c) == { c[i][1] : i \in 1..Len(c) }
Group(s, c, names) ==
  IF names = {} THEN [ok |-> TRUE, s |-> s, c |-> <<>>]
  ELSE LET n == CHOOSE x \in names : TRUE
           g == SelectSeq(c, LAMBDA x : x[1] = n)
           ids == [i \in 1..Len(g) |-> g[i][2]]
           a == IF Len(g) = 1 THEN s ELSE Alloc(s, [Blank0 EXCEPT !.kind = "lay", !.l = ids])
           r == Group(a, c, names \ {n})
       IN [r EXCEPT !.c = Append(@, <<n, IF Len(g) = 1 THEN ids[1] ELSE Len(a.heap)>>)]
Kids(s, id) ==
  LET o == s.heap[id] IN
  CASE o.kind = "pt" -> LET t == Tr(s, o.root)  p == NsComps(o.ns) IN IF Has(t, p) THEN PtKids(s, At(t, p).c, <<>>) ELSE NoKids(s)
    [] o.kind = "lay" -> LET k == LayKids(s, o.l, <<>>) IN IF k.ok THEN Group(k.s, k.c, NamesOf(k.c)) ELSE k
    [] o.kind = "ver" -> LET k == Kids(s, o.b) IN IF k.ok THEN Wrap(k.s, o, k.c, FALSE, <<>>) ELSE k
    [] OTHER -> NoKids(s)
RECURSIVE EKids(_, _)
EKids(s, id) == LET o == s.heap[id] IN IF o.kind = "pt" THEN Kids(s, id) ELSE LET k == EKids(s, o.b) IN IF k.ok THEN Wrap(k.s, o, k.c, TRUE, <<>>) ELSE k
RECURSIVE Merged(_, _)
Merged(s, id) == s.heap[id].kind = "lay" \/ (s.heap[id].kind = "ver" /\ Merged(s, s.heap[id].b))
RECURSIVE NameAll(_, _, _)
(* the children in the order reported; repeated names in their own order      *)
NameAll(s, names, c) == IF names = <<>> THEN s
                        ELSE LET i == CHOOSE j \in 1..Len(c) : c[j][1] = Head(names) /\ \A m \in 1..(j - 1) : c[m][1] # Head(names) IN
                             NameAll([s EXCEPT !.vars = Append(@, c[i][2])], Tail(names), SubSeq(c, 1, i - 1) \o SubSeq(c, i + 1, Len(c)))
ChildrenAre(s, id, k, r) ==
  IF ~k.ok THEN IF r.k = "exc" THEN {s} ELSE {}
  ELSE IF r.k # "names" \/ Len(r.n) # Len(k.c) \/ { r.n[i] : i \in 1..Len(r.n) } # NamesOf(k.c) THEN {}
  ELSE IF ~Merged(s, id) /\ r.n # [i \in 1..Len(k.c) |-> k.c[i][1]] THEN {}
  ELSE {NameAll(k.s, r.n, k.c)}

(* ---- logs of a verbose store: one line per read or added value             *)
Fn(ty) == CASE ty = "string" -> "String" [] ty = "int" -> "Int" [] ty = "bool" -> "Bool" [] OTHER -> "Double"
Line(o, f, path, extra, txt) == IF o.kind = "ver" THEN << o.log \o f \o "(\"" \o path \o "\")->" \o extra \o txt >> ELSE <<>>
Log(e) == IF "log" \in DOMAIN e.r THEN e.r.log ELSE <<>>

Kept(r) == [f \in DOMAIN r \cap {"k", "s", "i", "bits"} |-> r[f]]
Handle(s, h) == [s EXCEPT !.handles = Append(@, h)]
BoundTo(root, p, ty) == [kind |-> "bound", root |-> root, p |-> p, ty |-> ty, r |-> [k |-> ""]]
Fixed(ty, r) == [kind |-> "fixed", root |-> 0, p |-> <<>>, ty |-> ty, r |-> Kept(r)]
Given(s, e, x) == \* the outcome of a read of which Look says x
  CASE x.x = "exc" -> IF e.r.k = "exc" /\ (x.t # "" => e.r.t = x.t) THEN {s} ELSE {}
    [] x.x = "bound" -> IF Reads(s, e.ty, At(Tr(s, x.root), x.p).d, e.r) /\ e.r.u THEN {Handle(s, BoundTo(x.root, x.p, e.ty))} ELSE {}
    [] x.x = "text" -> IF Reads(s, e.ty, x.d, e.r) /\ ~e.r.u THEN {Handle(s, Fixed(e.ty, e.r))} ELSE {}
    [] OTHER -> IF Shows(e.ty, e.x, e.r) /\ ~e.r.u THEN {Handle(s, Fixed(e.ty, e.r))} ELSE {}
VGet(s, e) == LET id == s.vars[e.v]  o == s.heap[id] IN
  IF Log(e) # (IF e.r.k = "exc" THEN <<>> ELSE Line(o, "get" \o Fn(e.ty), e.path, IF e.def /\ ~Knows(s, id, e.path) THEN "DEFAULT:" ELSE "", e.r.txt)) THEN {}
  ELSE Given(s, e, Look(s, id, e.ty, e.path, e.def))
(* the property tree adapter: an absolute key, the same store                 *)
VAsPt(s, e) == LET k == Qualify(BaseNs(e.ns), e.path)  x == Look(s, s.vars[e.v], e.ty, SubSeq(k, 2, Len(k)), e.def) IN
  CASE x.x = "exc" -> IF e.r.k = "exc" THEN {s} ELSE {}
    [] x.x = "bound" -> IF Reads(s, e.ty, At(Tr(s, x.root), x.p).d, e.r) THEN {s} ELSE {}
    [] x.x = "text" -> IF Reads(s, e.ty, x.d, e.r) THEN {s} ELSE {}
    [] OTHER -> IF Shows(e.ty, e.x, e.r) THEN {s} ELSE {}
VAsPtHas(s, e) == LET k == Qualify(BaseNs(e.ns), e.path) IN
                  IF e.r.k = "int" /\ e.r.i = (IF Knows(s, s.vars[e.v], SubSeq(k, 2, Len(k))) THEN 1 ELSE 0) THEN {s} ELSE {}
(* write x as ty into a tree; the text is taken from the recorded tree        *)
Write(s, root, p, ty, x, d) == IF ~Denotes(s, ty, d, x) THEN {}
                               ELSE { [SetTr(s, root, Put(Tr(s, root), p, d)) EXCEPT !.dbl = IF ty = "double" THEN (d :> x.bits) @@ @ ELSE @] }
WriteT(s, root, p, ty, x, e) == IF root > 0 THEN LET t == e.r.ts[root] IN IF Has(t, p) THEN Write(s, root, p, ty, x, At(t, p).d) ELSE {}
                                ELSE Write(s, root, p, ty, x, e.r.d)
RECURSIVE Under(_, _)
Under(s, o) == IF o.kind = "ver" THEN Under(s, s.heap[o.b]) ELSE o
VAdd(s, e) == LET o == Obj(s, e.v)  q == Under(s, o) IN
              IF e.r.k = "exc" \/ ~Shows(e.ty, e.x, e.r) \/ e.r.u \/ Log(e) # Line(o, "add" \o Fn(e.ty), e.path, "INITIAL:", e.r.txt) THEN {}
              ELSE { Handle(n, Fixed(e.ty, e.r)) : n \in WriteT(s, q.root, KeyComps(q.ns, e.path), e.ty, e.x, e) }
HGet(s, e) == IF e.h > Len(s.handles) THEN IF e.r.k = "none" THEN {s} ELSE {}
              ELSE LET h == s.handles[e.h] IN
              IF h.kind = "fixed" THEN IF e.r.k # "exc" /\ Kept(e.r) = h.r /\ ~e.r.u THEN {s} ELSE {}
              ELSE LET d == At(Tr(s, h.root), h.p).d IN
                   IF ~Valid(h.ty, d) THEN IF e.r.k = "exc" /\ e.r.t = "value" THEN {s} ELSE {}
                   ELSE IF e.r.k # "exc" /\ Reads(s, h.ty, d, e.r) /\ e.r.u THEN {s} ELSE {}
HUpd(s, e) == IF e.h > Len(s.handles) THEN IF e.r.k = "none" THEN {s} ELSE {}
              ELSE LET h == s.handles[e.h] IN
              IF h.kind = "fixed" THEN IF e.r.k = "fixed" THEN {s} ELSE {}
              ELSE IF e.r.k # "ok" THEN {} ELSE WriteT(s, h.root, h.p, h.ty, e.x[h.ty], e)
(* candidates: the first that is there; a marked one raises an alert          *)
Marked(p) == StartsWith(p, "!")
RECURSIVE Cand(_, _, _, _)
Cand(s, id, l, i) ==
  IF i > Len(l) THEN [p |-> l[1], a |-> <<>>]
  ELSE IF ~Marked(l[i]) THEN IF Knows(s, id, l[i]) THEN [p |-> l[i], a |-> <<>>] ELSE Cand(s, id, l, i + 1)
  ELSE LET n == SubSeq(l[i], 2, Len(l[i])) IN
       IF Knows(s, id, n) THEN [p |-> n, a |-> << <<n, IF i < Len(l) THEN l[i + 1] ELSE "Property name '" \o n \o "' is deprecated! Use " \o l[1] \o " instead.">> >>]
       ELSE Cand(s, id, l, i + 2)
VFind(s, e) == LET id == s.vars[e.v]  c == Cand(s, id, e.paths, 1) IN
               IF e.r.alerts # (IF e.quiet THEN <<>> ELSE c.a) THEN {}
               ELSE IF e.quiet /\ (e.r.spoke # (c.a # <<>>) \/ (c.a # <<>> /\ e.r.err # c.a[1][2])) THEN {} ELSE Given(s, e, Look(s, id, e.ty, c.p, e.def))
RECURSIVE Really(_, _)
Really(s, id) == LET o == s.heap[id] IN
  CASE o.kind = "pt" -> LET t == Tr(s, o.root)  p == NsComps(o.ns) IN ~Has(t, p) \/ At(t, p).c = <<>>
    [] o.kind = "lay" -> \A i \in 1..Len(o.l) : Really(s, o.l[i])
    [] o.kind = "pre" -> o.mode = "add" \/ Really(s, o.b)
    [] OTHER -> Really(s, o.b)
RECURSIVE EmptyIs(_, _, _)
(* exact for whole trees; a store made of others may always say no            *)
EmptyIs(s, id, r) == LET o == s.heap[id] IN
  CASE o.kind = "pt" -> r = (IF Tr(s, o.root).c = <<>> THEN 1 ELSE 0) \/ (NsComps(o.ns) # <<>> /\ r = (IF Really(s, id) THEN 1 ELSE 0))
    [] o.kind = "ver" -> EmptyIs(s, o.b, r)
    [] OTHER -> r = 0 \/ Really(s, id)

VStep(s, e) ==
  CASE e.op = "build" -> {New([s EXCEPT !.roots = Append(@, e.t)], Pt(Len(s.roots) + 1, BaseNs(e.ns)))}
    [] e.op = "fresh" -> LET h == HidTree(s, Empty) IN {New(h, Pt(0 - Len(h.hid), "/"))}
    [] e.op = "lay" -> {New(s, [Blank0 EXCEPT !.kind = "lay", !.l = [i \in 1..Len(e.l) |-> s.vars[e.l[i]]]])}
    [] e.op = "addlay" -> {[s EXCEPT !.heap[s.vars[e.v]].l = Append(@, s.vars[e.w])]}
    [] e.op = "pre" -> {New(s, [Blank0 EXCEPT !.kind = "pre", !.mode = e.mode, !.pre = e.pre \o "/", !.b = s.vars[e.v]])}
    [] e.op = "ver" -> {New(s, [Blank0 EXCEPT !.kind = "ver", !.b = s.vars[e.v], !.ext = e.ext])}
    [] e.op = "nch" -> {New(s, [Blank0 EXCEPT !.kind = "nch", !.b = s.vars[e.v]])}
    [] e.op = "child" -> IF e.r.k = "ok" THEN {NameIt(Child(s, s.vars[e.v], e.key))} ELSE {}
    [] e.op = "echild" -> IF e.r.k = "ok" THEN {NameIt(EChild(s, s.vars[e.v], e.key))} ELSE {}
    [] e.op = "children" -> ChildrenAre(s, s.vars[e.v], Kids(s, s.vars[e.v]), e.r)
    [] e.op = "echildren" -> ChildrenAre(s, s.vars[e.v], EKids(s, s.vars[e.v]), e.r)
    [] e.op = "get" -> VGet(s, e)
    [] e.op = "has" -> LET b == IF Knows(s, s.vars[e.v], e.path) THEN 1 ELSE 0 IN
                       IF e.r.k = "int" /\ e.r.i = b /\ Log(e) = Line(Obj(s, e.v), "hasKey", e.path, "", IF b = 1 THEN "1" ELSE "0") THEN {s} ELSE {}
    [] e.op = "add" -> VAdd(s, e)
    [] e.op = "hget" -> HGet(s, e)
    [] e.op = "hupd" -> HUpd(s, e)
    [] e.op = "tset" -> IF e.r.k # "ok" THEN {} ELSE WriteT(s, e.root, KeyComps("/", e.key), e.ty, e.x, e)
    [] e.op = "find" -> VFind(s, e)
    [] e.op = "aspt" -> VAsPt(s, e)
    [] e.op = "aspthas" -> VAsPtHas(s, e)
    [] e.op = "empty" -> IF e.r.k = "int" /\ EmptyIs(s, s.vars[e.v], e.r.i) THEN {s} ELSE {}
    [] e.op = "ext" -> IF e.r.k = "int" /\ e.r.i = (IF Obj(s, e.v).ext THEN 1 ELSE 0) THEN {s} ELSE {}
    [] e.op = "cansave" -> IF e.r.k = "int" /\ e.r.i = (IF Obj(s, e.v).kind = "pt" THEN 1 ELSE 0) THEN {s} ELSE {}
    [] e.op = "resave" -> IF Obj(s, e.v).kind # "pt" THEN IF e.r.k = "exc" THEN {s} ELSE {}
                          ELSE IF e.r.k # "ok" THEN {} ELSE LET h == HidTree(s, Tr(s, Obj(s, e.v).root)) IN {New(h, Pt(0 - Len(h.hid), "/"))}
    [] e.op = "parse" -> IF e.r.k # "ok" THEN {} ELSE LET h == HidTree(s, Inline(e.s).t) IN {New(h, Pt(0 - Len(h.hid), "/"))}
    [] e.op = "null" -> IF e.r.k = "exc" THEN {s} ELSE {}
(* calls that name no store or one of a wrong kind are not made               *)
Makeable(s, e) ==
  /\ "v" \in DOMAIN e => e.v <= Len(s.vars)
  /\ "w" \in DOMAIN e => e.w <= Len(s.vars)
  /\ "l" \in DOMAIN e => \A i \in 1..Len(e.l) : e.l[i] <= Len(s.vars)
  /\ e.op = "addlay" => Obj(s, e.v).kind = "lay"
  /\ e.op \in {"add", "echild", "echildren"} => Obj(s, e.v).ext
  /\ e.op = "ver" /\ e.ext => Obj(s, e.v).ext
VNext1(s, e) == IF "ts" \in DOMAIN e.r THEN { n \in (IF Makeable(s, e) THEN VStep(s, e) ELSE IF e.r.k = "none" THEN {s} ELSE {}) : e.r.ts = n.roots } ELSE {}
===============================================================================
