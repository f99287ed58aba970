------------------------------- MODULE PropTree -------------------------------
(* Histories over sm::PropertyTree, ConstPropertyTree, BoostPropertyTree.     *)
(* roots: the trees; views: [root, ns]; dbl: texts written by setDouble and   *)
(* the exact number (bit pattern) they stand for; files: what was saved.      *)
EXTENDS PTree
InitState == [roots |-> <<>>, views |-> <<>>, dbl |-> <<>>, files |-> <<>>, human |-> FALSE, nocomm |-> TRUE]
Root(s, v) == s.roots[s.views[v].root]
K(s, v, key) == KeyComps(s.views[v].ns, key)
SetRoot(s, v, t) == [s EXCEPT !.roots[s.views[v].root] = t]
NewRoot(s, t, ns) == [s EXCEPT !.roots = Append(@, t), !.views = Append(@, [root |-> Len(s.roots) + 1, ns |-> ns])]

(* the value of text d as type ty; matches a recorded value r                 *)
Valid(ty, d) == CASE ty = "string" -> TRUE [] ty = "int" -> ParseInt(d).ok [] ty = "bool" -> ParseBool(d).ok [] OTHER -> ParseDouble(d).ok
Reads(s, ty, d, r) ==
  CASE ty = "string" -> r.k = "str" /\ r.s = d
    [] ty = "int" -> r.k = "int" /\ r.i = ParseInt(d).v
    [] ty = "bool" -> r.k = "int" /\ r.i = ParseBool(d).v
    [] OTHER -> r.k = "dbl" /\ (IF d \in DOMAIN s.dbl THEN r.bits = s.dbl[d] ELSE DoubleIs(ParseDouble(d), r))
(* r shows the given value (of a set operation or a default)                  *)
Shows(ty, x, r) == CASE ty = "string" -> r.k = "str" /\ r.s = x.s
                     [] ty = "double" -> r.k = "dbl" /\ r.bits = x.bits
                     [] OTHER -> r.k = "int" /\ r.i = x.i
(* d is a text for value x of type ty                                         *)
Denotes(s, ty, d, x) == CASE ty = "string" -> d = x.s
                          [] ty = "int" -> ParseInt(d) = [ok |-> TRUE, v |-> x.i]
                          [] ty = "bool" -> ParseBool(d) = [ok |-> TRUE, v |-> x.i]
                          [] OTHER -> DoubleIs(ParseDouble(d), x) /\ (d \in DOMAIN s.dbl => s.dbl[d] = x.bits)
(* s with the value x of type ty stored at key; the text is taken from the    *)
(* recorded tree and must denote the value                                    *)
Stored(s, v, key, ty, x, ts) ==
  LET p == K(s, v, key)
      t == ts[s.views[v].root]
      d == IF Has(t, p) THEN At(t, p).d ELSE ""
  IN IF ~Has(t, p) \/ ~Denotes(s, ty, d, x) THEN {}
     ELSE { [SetRoot(s, v, Put(Root(s, v), p, d)) EXCEPT !.dbl = IF ty = "double" THEN (d :> x.bits) @@ @ ELSE @] }

Get(s, e) == LET p == K(s, e.v, e.key)  t == Root(s, e.v) IN
             IF ~Has(t, p) THEN IF e.r.k = "exc" /\ e.r.t = "key" THEN {s} ELSE {}
             ELSE IF ~Valid(e.ty, At(t, p).d) THEN IF e.r.k = "exc" /\ e.r.t = "value" THEN {s} ELSE {}
             ELSE IF Reads(s, e.ty, At(t, p).d, e.r) THEN {s} ELSE {}
GetDef(s, e) == LET p == K(s, e.v, e.key)  t == Root(s, e.v) IN
                IF Has(t, p) THEN IF Valid(e.ty, At(t, p).d) THEN IF Reads(s, e.ty, At(t, p).d, e.r) THEN {s} ELSE {}
                                  ELSE IF Shows(e.ty, e.x, e.r) THEN {s} ELSE {}
                ELSE IF ~Shows(e.ty, e.x, e.r) THEN {}
                ELSE IF e.const THEN {s} ELSE Stored(s, e.v, e.key, e.ty, e.x, e.r.ts)
RECURSIVE AddAll(_, _)
AddAll(s, c) == IF c = <<>> THEN s ELSE AddAll(NewRoot(s, [Head(c) EXCEPT !.k = ""], "/"), Tail(c))
Children(s, e) == LET p == NsComps(s.views[e.v].ns)  t == Root(s, e.v) IN
                  IF ~Has(t, p) THEN IF e.r.k = "exc" THEN {s} ELSE {}
                  ELSE LET c == At(t, p).c IN
                       IF e.r.k = "names" /\ e.r.n = [i \in 1..Len(c) |-> c[i].k] THEN {AddAll(s, c)} ELSE {}
Update(s, e) == LET m == Merge(Root(s, e.v), Root(s, e.w), e.create, e.ignore) IN
                IF m.x THEN (IF e.r.k = "exc" /\ e.r.t = "notfound"
                             \* the keys are those of before, other values may have been written already
                             THEN LET t == e.r.ts[s.views[e.v].root] IN
                                  IF Paths(t) = Paths(Root(s, e.v)) /\ \A x \in Nodes(t) : x \in Nodes(Root(s, e.v)) \/ x \in Nodes(Root(s, e.w))
                                  THEN {SetRoot(s, e.v, t)} ELSE {}
                             ELSE {})
                ELSE IF e.r.k = "ok" THEN {SetRoot(s, e.v, m.t)} ELSE {}
LoadString(s, e) == LET r == Inline(e.s) IN
                    IF r.ok THEN IF e.r.k = "ok" THEN {SetRoot(s, e.v, r.t)} ELSE {}
                    ELSE IF e.r.k = "exc" THEN {s} ELSE {}
File(s, f) == IF f \in DOMAIN s.files THEN s.files[f] ELSE [st |-> "none", fmt |-> "", t |-> Empty, human |-> FALSE]
SetFile(s, f, x) == [s EXCEPT !.files = (f :> x) @@ [k \in DOMAIN @ \ {f} |-> @[k]]]
Known == {"xml", "json", "ini", "info"}
(* e.fmt: the format asked for (by the extension or by the function)          *)
Save(s, e) == IF e.fmt \notin Known THEN IF e.r.k = "exc" /\ e.r.t = "format" THEN {s} ELSE {}
              ELSE LET t == Root(s, e.v)
                       human == e.fmt = "xml" /\ s.human
                       x == [st |-> IF Representable(t, e.fmt, human) THEN "good" ELSE "unknown", fmt |-> e.fmt, t |-> t, human |-> human]
                   IN IF x.st = "good" /\ e.r.k # "ok" THEN {} ELSE {SetFile(s, e.f, x)}
(* loading: exactly what was saved, or unchanged with an exception            *)
Loaded(s, x) == IF x.fmt = "xml" /\ s.nocomm THEN NoComments(x.t) ELSE x.t
Certain(s, x, fmt) == x.st = "good" /\ x.fmt = fmt /\ (fmt = "xml" /\ s.human => Representable(x.t, "xml", TRUE)) /\ (x.human => s.human)
Load(s, e) == LET x == File(s, e.f) IN
              IF e.fmt \notin Known THEN IF e.r.k = "exc" /\ e.r.t = "format" THEN {s} ELSE {}
              ELSE IF x.st = "none" THEN IF e.r.k = "exc" THEN {s} ELSE {}
              ELSE IF Certain(s, x, e.fmt) THEN IF e.r.k = "ok" THEN {SetRoot(s, e.v, Loaded(s, x))} ELSE {}
              ELSE IF e.r.k = "ok" THEN {SetRoot(s, e.v, e.r.ts[s.views[e.v].root])} ELSE {s}
Damage(s, e) == IF e.f \in DOMAIN s.files THEN {SetFile(s, e.f, [s.files[e.f] EXCEPT !.st = "unknown"])} ELSE {s}

Step1(s, e) ==
  CASE e.op = "new" -> {NewRoot(s, Empty, BaseNs(e.ns))}
    [] e.op = "build" -> {NewRoot(s, e.t, BaseNs(e.ns))}
    [] e.op = "view" -> {[s EXCEPT !.views = Append(@, [root |-> s.views[e.v].root, ns |-> ChildNs(s.views[e.v].ns, e.ns)])]}
    [] e.op = "copy" -> {[s EXCEPT !.views = Append(@, s.views[e.v])]}
    [] e.op = "set" -> IF e.r.k = "ok" THEN Stored(s, e.v, e.key, e.ty, e.x, e.r.ts) ELSE {}
    [] e.op = "get" -> Get(s, e)
    [] e.op = "getd" -> GetDef(s, e)
    [] e.op = "exists" -> IF e.r.k = "int" /\ e.r.i = (IF Has(Root(s, e.v), K(s, e.v, e.key)) THEN 1 ELSE 0) THEN {s} ELSE {}
    [] e.op = "children" -> Children(s, e)
    [] e.op = "update" -> Update(s, e)
    [] e.op = "string" -> LoadString(s, e)
    [] e.op = "save" -> Save(s, e)
    [] e.op = "load" -> Load(s, e)
    [] e.op = "damage" -> Damage(s, e)
    [] e.op = "mode" -> {[s EXCEPT !.human = e.human, !.nocomm = e.nocomm]}
(* after every event all trees are as recorded                                *)
Next1(s, e) == IF "ts" \in DOMAIN e.r THEN { n \in Step1(s, e) : e.r.ts = n.roots } ELSE {}
===============================================================================
