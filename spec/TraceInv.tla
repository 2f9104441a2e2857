------------------------------ MODULE TraceInv ------------------------------
(* st: the records of the inventory at hand.  Observed records carry arrays for statement sets.              *)
EXTENDS Inventory, Trace
VARIABLES s, l, st
R0(r) == [id |-> r.id, cls |-> r.cls, par |-> r.par, st |-> RangeOf(r.st), cit |-> [i \in DOMAIN r.cit |-> [name |-> r.cit[i].name, scope |-> Quo(r.cit[i].scope), xpath |-> Quo(r.cit[i].xpath)]]]
Recs(q) == [i \in DOMAIN q |-> R0(q[i])]
Diff(a, b) == [missing |-> a \ b, extra |-> b \ a]
Same(q, S, name) == Clause(RangeOf(Recs(q)) = S /\ Len(q) = Cardinality(S), name, Diff(S, RangeOf(Recs(q))))
\* order of the works and textgroups of a document
Order(q, c) == LET w == SelectSeq(q, LAMBDA r : r.cls = c) IN [i \in DOMAIN w |-> w[i].id]
\* root attributes pointing to the parent
ParentOK(x, e) == LET r == Rec(x, e.id) IN
  IF r.cls = "inv" \/ r.cls = "tg" \/ r.par = "" THEN TRUE ELSE Att(e.doc, IF r.cls = "wk" THEN "groupUrn" ELSE "workUrn") = <<r.par>>
\* every work names the textgroup around it, every text its work
RECURSIVE NestOK(_)
NestOK(d) == \A i \in DOMAIN d.kids : LET k == d.kids[i] IN
  /\ (d.ns = TI /\ k.ns = TI /\ d.tag = "textgroup" /\ k.tag = "work") => Att(k, "groupUrn") = Att(d, "urn")
  /\ (d.ns = TI /\ k.ns = TI /\ d.tag = "work" /\ k.tag \in {TagOf[c] : c \in Texts}) => Att(k, "workUrn") = Att(d, "urn")
  /\ NestOK(k)
Verdict(sc, x, e) ==
  CASE e.op = "parse" -> LET w == Parse(e.doc, e.cls, "", <<>>) IN
         Same(e.res, RangeOf(w), "parsed inventory") \o
         Clause(\A c \in {"tg", "wk"} : Order(w, c) = Order(e.res, c), "order", w) \o
         Clause(e.texts = Len(SelectSeq(w, LAMBDA r : r.cls \in Texts)), "number of texts", Len(w)) \o
         Clause(e.extra = <<>> \/ e.extra[1] = [i \in 1..Len(SelectSeq(w, LAMBDA r : r.cls \in Texts)) |-> SelectSeq(w, LAMBDA r : r.cls \in Texts)[i].id], "children returned with the work", w)
    [] e.op = "build" -> <<>>
    \* objects of two readings of one document are equal exactly when they have the same identifier
    [] e.op = "same" -> LET bad == {i \in DOMAIN e.pairs : LET p == e.pairs[i] IN p[3].k # "v" \/ p[4].k # "v" \/ p[3].v # (p[1] = p[2]) \/ p[4].v # (p[1] # p[2])} IN
         Clause(bad = {}, "equality of objects", {e.pairs[i] : i \in bad})
    [] e.op = "dump" -> Same(e.res, RangeOf(x), "objects")
    [] e.op = "export" -> IF e.doc.tag = "!!" THEN <<<<"well-formed export", e.doc.tx>>>> ELSE
         LET got == Read(e.doc, Rec(x, e.id).cls)  w == Carried(x, e.id, e.cap) IN
         Clause(e.doc.ns = TI /\ e.doc.tag = TagOf[Rec(x, e.id).cls], "root element", TagOf[Rec(x, e.id).cls]) \o
         Clause(got = w, "exported inventory", Diff(w, got)) \o
         Clause(ParentOK(x, e), "parent identifier", Rec(x, e.id).par) \o
         Clause(NestOK(e.doc), "parent identifiers below", e.id) \o
         Clause(LET a == Parse(e.doc, Rec(x, e.id).cls, "", <<>>)  b == Sub(x, e.id, "") IN \A c \in {"tg", "wk"} \cup Texts : Order(a, c) = Order(b, c), "order", e.id) \o
         Clause(e.doc.tag = "TextInventory" \/ LangIn(Rec(x, e.id)) = Att(e.doc, "lang"), "language", LangIn(Rec(x, e.id)))
    \* asked of an endpoint serving the inventory
    [] e.op = "get" -> IF \E i \in DOMAIN x : x[i].id = e.id
         THEN Clause(e.obs.k = "v", "object", e.id) \o (IF e.obs.k # "v" THEN <<>> ELSE Same(e.obs.v, RangeOf(Sub(x, e.id, "")), "object and what is below"))
         ELSE Clause(IsX(e.obs), "unknown identifier", "error")
    \* several inventories in one document: the textgroups of all
    [] e.op = "exportall" -> IF e.doc.tag = "!!" THEN <<<<"well-formed export", e.doc.tx>>>> ELSE
         LET got == {r \in Read(e.doc, "inv") : r.cls # "inv"}
             w == {[r EXCEPT !.par = IF r.cls = "tg" THEN e.id ELSE @] : r \in {IF e.cap THEN y ELSE Core(y) : y \in {z \in RangeOf(x) : z.cls # "inv"}}} IN
         Clause(got = w, "exported inventories", Diff(w, got)) \o Clause(NestOK(e.doc), "parent identifiers below", e.id) \o Clause(Att(e.doc, "tiid") = <<e.id>>, "identifier", e.id)
    [] OTHER -> <<<<"unknown event", e.op>>>>
Step(x, e) == CASE e.op = "parse" -> Parse(e.doc, e.cls, "", <<>>)
                [] e.op = "build" -> Recs(e.recs)
                [] OTHER -> x
Init == s \in 1..Len(Scen) /\ l = 1 /\ st = <<>>
Next == /\ l <= Len(Scen[s].ev)
        /\ LET e == Scen[s].ev[l]
               v == Verdict(Scen[s], st, e)
           IN IF v # <<>> THEN Fail(Scen[s], l, v) ELSE st' = Step(st, e)
        /\ l' = l + 1 /\ s' = s
Spec == Init /\ [][Next]_<<s, l, st>>
=============================================================================
