--------------------------- MODULE TraceCollExport ---------------------------
EXTENDS CollExport, Trace
VARIABLES s, l, st
RS(q) == RangeOf(q)
Rec(r) == [r EXCEPT !.dc = RangeOf(@), !.ext = RangeOf(@)]
SetKids(objs, id, kids) == [i \in DOMAIN objs |-> IF objs[i].id = id THEN [objs[i] EXCEPT !.kids = kids] ELSE objs[i]]
AddKid(objs, par, id) == IF par = <<>> THEN objs ELSE SetKids(objs, par[1], Append(Obj(objs, par[1]).kids, id))
New(id, cite) == [id |-> id, dts |-> FALSE, kids |-> <<>>, cite |-> cite, depth |-> <<>>]
Diff(a, b) == [missing |-> a \ b, extra |-> b \ a]
\* rdflib's JSON-LD writer leaves out empty, false and zero values next to others of the same key
Falsy(G, e) == IF e.fmt # "ld" THEN {} ELSE {y \in G : y.v.t = "lit" /\ y.v.s \in {"", "0", "false"} /\ Cardinality(Of(G, y.n, y.k)) > 1}
Verdict(sc, x, e) ==
  CASE e.op = "dump" -> Clause(RangeOf(e.G) = x.G, "statements in the graph", Diff(x.G, RangeOf(e.G)))
    [] e.op = "dts" -> LET o == Obj(x.objs, e.n) IN
         IF e.obs.k # "v" THEN <<<<"export", "a record">>>> ELSE
         LET r == e.obs.v IN
         Clause(e.json, "the record is JSON", TRUE)
         \o Clause(Summary(x.G, o, r), "summary", <<Labels(x.G, e.n), Of(x.G, e.n, Ty), Size(x.G, o)>>)
         \o Clause(RangeOf(r.dc) = DcPart(x.G, e.n), "Dublin Core terms", Diff(DcPart(x.G, e.n), RangeOf(r.dc)))
         \o Clause(RangeOf(r.ext) = ExtPart(x.G, e.n), "extensions", Diff(ExtPart(x.G, e.n), RangeOf(r.ext)))
         \o Clause(Len(r.dc) = Cardinality(RangeOf(r.dc)) /\ Len(r.ext) = Cardinality(RangeOf(r.ext)), "said once", e.n)
         \o Clause(Len(r.kids) = Len(o.kids) /\ \A i \in DOMAIN o.kids : Summary(x.G, Obj(x.objs, o.kids[i]), r.kids[i]), "members", o.kids)
         \o Clause(r.cite = o.cite, "citation structure", o.cite)
         \o Clause(r.depth = Depth_(o), "citation depth", Depth_(o))
         \o Clause(r.other = <<>>, "nothing else", <<>>)
    [] e.op = "rdf" ->
         IF e.obs.k # "v" THEN <<<<"export", "a graph">>>> ELSE
         LET got == RangeOf(e.obs.v)  w == About(x.G, e.n) IN
         Clause(w \ Falsy(x.G, e) \subseteq got, "statements about the collection", w \ got)
         \o Clause(got \subseteq x.G, "statements of the graph only", got \ x.G)
    [] e.op = "reread" -> Clause(e.res = "ok", "the record is read", "ok")
    [] e.op \in {"new", "add", "anon", "rem", "label", "type", "del", "parse"} -> Clause(e.res = "ok", "change accepted", "ok")
    [] OTHER -> <<<<"unknown event", e.op>>>>
Step(x, e) ==
  CASE e.op = "new" -> [x EXCEPT !.G = NewColl(@, e.n, e.type, e.model, e.par, e.lang), !.objs = AddKid(Append(@, New(e.n, e.cite)), e.par, e.n)]
    [] e.op = "add" -> [x EXCEPT !.G = @ \cup {St(e.n, e.k, e.v)}]
    [] e.op = "anon" -> [x EXCEPT !.G = @ \cup {St(e.n, e.k, e.v), St(e.v.s, Tag, Lit(SubSeq(e.v.s, 3, Len(e.v.s)), <<>>, <<>>))}]
    [] e.op = "rem" -> [x EXCEPT !.G = {y \in @ : ~(y.n = e.n /\ y.k = e.k)}]
    [] e.op = "label" -> [x EXCEPT !.G = LabelS(@, e.n, e.t, e.lang)]
    [] e.op = "type" -> [x EXCEPT !.G = PutS(@, e.n, Ty, Uri(e.t))]
    [] e.op = "del" -> [x EXCEPT !.G = Gone(@, e.n), !.objs = SetKids(@, e.par[1], SelectSeq(Obj(@, e.par[1]).kids, LAMBDA k : k # e.n))]
    [] e.op = "parse" -> LET r == Rec(e.rec) IN [x EXCEPT !.G = ReadG(r), !.objs = ReadObjs(r)]
    [] e.op = "reread" -> LET r == Rec(x.last[1]) IN [x EXCEPT !.G = ReadG(r), !.objs = ReadObjs(r), !.last = <<>>]
    [] e.op = "dts" -> [x EXCEPT !.last = <<e.obs.v>>]
    [] OTHER -> x
Init == s \in 1..Len(Scen) /\ l = 1 /\ st = [G |-> {}, objs |-> <<>>, last |-> <<>>]
Next == /\ l <= Len(Scen[s].ev)
        /\ LET e == Scen[s].ev[l]
               v == Verdict(Scen[s], st, e)
           IN IF v # <<>> THEN Fail(Scen[s], l, v) ELSE st' = Step(st, e)
        /\ l' = l + 1 /\ s' = s
Spec == Init /\ [][Next]_<<s, l, st>>
=============================================================================
