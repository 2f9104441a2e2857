------------------------------- MODULE DtsCite -------------------------------
(* Citation schemes of DTS: forests of named citations; sets of references.  A forest is a sequence of
   [name, kids]; nodes are numbered in reading order, 0 being what holds the forest.                    *)
EXTENDS Str, TLC
RECURSIVE Size(_)
Size(f) == IF f = <<>> THEN 0 ELSE 1 + Size(f[1].kids) + Size(Tail(f))
RECURSIVE Depth(_)
Depth(f) == IF f = <<>> THEN 0 ELSE LET a == 1 + Depth(f[1].kids)  b == Depth(Tail(f)) IN IF a > b THEN a ELSE b
RECURSIVE Pre(_)
Pre(f) == IF f = <<>> THEN <<>> ELSE <<f[1].name>> \o Pre(f[1].kids) \o Pre(Tail(f))
RECURSIVE LevelAt(_, _)
LevelAt(f, k) == IF f = <<>> THEN <<>> ELSE (IF k = 0 THEN <<f[1].name>> ELSE LevelAt(f[1].kids, k - 1)) \o LevelAt(Tail(f), k)
RECURSIVE At(_, _)
At(f, i) == LET n == Size(<<f[1]>>) IN IF i = 1 THEN f[1] ELSE IF i <= n THEN At(f[1].kids, i - 1) ELSE At(Tail(f), i - n)
KidsAt(f, i) == IF i = 0 THEN f ELSE At(f, i).kids
RECURSIVE Put1(_, _, _)
Put1(f, i, k) == LET n == Size(<<f[1]>>) IN
  IF i = 1 THEN <<[f[1] EXCEPT !.kids = k]>> \o Tail(f)
  ELSE IF i <= n THEN <<[f[1] EXCEPT !.kids = Put1(@, i - 1, k)]>> \o Tail(f) ELSE <<f[1]>> \o Put1(Tail(f), i - n, k)
PutKids(f, i, k) == IF i = 0 THEN k ELSE Put1(f, i, k)
\* JSON-LD of a forest, compact and expanded; a citation without a name has no citeType
RECURSIVE Json1(_)
Json1(f) == [i \in DOMAIN f |-> [citeType |-> f[i].name, citeStructure |-> Json1(f[i].kids)]]
RECURSIVE Ingest(_)
Ingest(j) == [i \in DOMAIN j |-> [name |-> j[i].citeType, kids |-> Ingest(j[i].citeStructure)]]
\* references [s, e, type] of DTS ("dts") or plain ("base"); equality looks at all of them
SameRef1(a, b) == a.cls = b.cls /\ a.s = b.s /\ a.e = b.e /\ (a.cls = "dts" => a.type = b.type)
SameSet(a, b) == a.cls = "dts" /\ b.cls = "dts" /\ Len(a.refs) = Len(b.refs) /\ (\A i \in DOMAIN a.refs : SameRef1(a.refs[i], b.refs[i])) /\ a.level = b.level /\ a.cit = b.cit
InSet(a, p) == \E i \in DOMAIN a.refs : IF p.cls = "str" THEN a.refs[i].s = p.s /\ a.refs[i].e = <<>> ELSE SameRef1(a.refs[i], p)
=============================================================================
