------------------------------ MODULE TraceDts ------------------------------
(* Questions to a DTS endpoint.  x: entry and routes, known (entry point read), the text (T, sch, tab) and two
   handles on documents (doc: the last opened, cur: where it was moved; the same at first): [ref, kids, coll].               *)
EXTENDS Dts, TextVerdicts
VARIABLES s, l, st
AskedOK(x, e, needs) == Clause(Asked(x, e.q, needs), "requests", needs)
Loud(e) == Clause(~Failed(e.q) \/ IsX(e.obs), "failed request reported", "error")
Want(e, ok, name, w) == IF Failed(e.q) THEN <<>> ELSE Clause(e.obs.k = "v" /\ ok, name, w)
OneAsk(x, e, need, w) == AskedOK(x, e, <<need>>) \o Loud(e) \o Want(e, IsV(e.obs, w), "answer", w)

\* ---- references
PageNeeds(x, e) == [p \in DOMAIN e.pages |-> PageReq(x, <<e.id>>, <<NatStr(e.lv)>>, e.ref, IF e.group = <<>> THEN <<"1">> ELSE e.group, e.excl, p)]
R1(r) == [s |-> r.s, e |-> r.e, type |-> r.type, meta |-> Said(r.meta)]
ReffsOK2(x, e) ==
  AskedOK(x, e, PageNeeds(x, e)) \o Loud(e) \o
  (IF Failed(e.q) THEN <<>> ELSE
   LET w == RefsOfPages(e.pages, e.types) IN
   Clause(e.obs.k = "v", "references", w) \o
   (IF e.obs.k # "v" THEN <<>> ELSE
    Clause([i \in DOMAIN e.obs.v.refs |-> R1(e.obs.v.refs[i])] = w, "references", w) \o
    Clause(e.obs.v.level = <<e.level>>, "level", e.level) \o
    \* the citation type of the reply: when its pages agree on one
    Clause((\A p \in DOMAIN e.types : e.types[p] = e.types[1]) => e.obs.v.cit = e.types[1], "citation", e.types[1]) \o
    Clause(\A i \in DOMAIN e.probes : e.holds[i] = Holds(w, e.probes[i]), "membership", w)))

\* ---- documents
UrnOf(tid, ref) == tid
DepthOf(ref) == IF ref = <<>> THEN 0 ELSE LET r == Ref(ref[1]) IN IF r.b = <<>> THEN Len(r.a.parts) ELSE MinOf({Len(r.a.parts), Len(EndOf(r).parts)})
DR(ref) == IF ref = <<>> THEN <<>> ELSE LET q == Split(ref[1], "-") IN <<[s |-> q[1], e |-> IF Len(q) = 2 THEN <<q[2]>> ELSE <<>>]>>
SameDepth(ref) == LET r == Ref(ref[1]) IN Len(r.a.parts) = Len(EndOf(r).parts)
ReffsAt(x, ref, lv) == IF lv \notin DOMAIN x.tab THEN <<>> ELSE RefsOf(Available(x.T, x.tab, ORef(ref), lv))
KidsOf(x, ref) == ReffsAt(x, ref, DepthOf(ref) + 1)
NoSib == [prev |-> <<>>, next |-> <<>>]
SibOf(x, ref) == IF ref = <<>> \/ ~SameDepth(ref) THEN NoSib ELSE Sibling(x.tab, Ref(ref[1]))
ParentOf(ref) == IF ref = <<>> THEN <<>> ELSE LET p == Parent(Ref(ref[1])) IN IF p = <<>> THEN <<>> ELSE <<PrintRef(p[1])>>
H(x, e) == IF e.h = "doc" THEN x.doc ELSE x.cur
Handle(ref) == [ref |-> ref, kids |-> FALSE, coll |-> FALSE]
Put(x, e, h) == IF x.same THEN [x EXCEPT !.doc = h, !.cur = h] ELSE IF e.h = "doc" THEN [x EXCEPT !.doc = h] ELSE [x EXCEPT !.cur = h]
NodeNeed(x, ref) == DocReq(x, <<x.tid>>, DR(ref))
NavNeeds(x, ref, lv) ==
  LET n == Len(ReffsAt(x, ref, DepthOf(ref) + lv))  k == IF n = 0 THEN 1 ELSE (n + x.per - 1) \div x.per IN
  [p \in 1..k |-> PageReq(x, <<x.tid>>, <<NatStr(lv)>>, DR(ref), <<"1">>, <<>>, p)]
KidNeeds(x, h) == IF h.kids THEN <<>> ELSE NavNeeds(x, h.ref, 1)
CollNeeds(x, h) == IF h.coll THEN <<>> ELSE <<CollReq(x, <<x.tid>>, <<>>, <<>>)>>
NodeOK(x, served, ref, o) ==
  Clause(o.id = x.tid, "identifier", x.tid) \o Clause(o.ref = ref, "reference of the document", ref)
  \o Clause(o.tree = served, "content of the document", served)
  \o (IF ref = <<>> THEN Clause(served = x.T, "content of the text", x.T) ELSE LET r == Ref(ref[1]) IN Clause(PassageOK(x.T, A(x, r), Z(x, r), o.tree), "content of the document is that of the text", "passage"))
  \o Clause(o.plain = Plain(o.tree, {}, " "), "plain text", Plain(o.tree, {}, " "))
Fetch(x, e, ref) == AskedOK(x, e, <<NodeNeed(x, ref)>>) \o Loud(e) \o
  (IF Failed(e.q) THEN <<>> ELSE Clause(e.obs.k = "v", "document", ref) \o (IF e.obs.k # "v" THEN <<>> ELSE NodeOK(x, e.served[1], ref, e.obs.v)))
Answer(x, h, w) == CASE w \in {"prevId", "prev"} -> SibOf(x, h.ref).prev [] w \in {"nextId", "next"} -> SibOf(x, h.ref).next [] w \in {"parentId", "parent"} -> ParentOf(h.ref)
                     [] w \in {"firstId", "first"} -> LET k == KidsOf(x, h.ref) IN IF k = <<>> THEN <<>> ELSE <<k[1]>>
                     [] OTHER -> LET k == KidsOf(x, h.ref) IN IF k = <<>> THEN <<>> ELSE <<k[Len(k)]>>
IdNeeds(x, h, w) == IF w \in {"firstId", "lastId", "childIds", "first", "last"} THEN KidNeeds(x, h) ELSE <<>>
SameO(o, w) == SameRef(o, w)
MoveNeeds(x, h, w) == LET to == Answer(x, h, w) IN IdNeeds(x, h, w) \o (IF to = <<>> THEN <<>> ELSE <<NodeNeed(x, to)>>)

Verdict(sc, x, e) ==
  CASE e.op = "serve" -> <<>>
    [] e.op = "routes" -> Clause(IF x.known THEN e.q = <<>> ELSE Len(e.q) = 1 /\ IsEntry(x, e.q[1]), "requests", UriText(x.entry)) \o Loud(e) \o
         (IF Failed(e.q) THEN <<>> ELSE Clause(e.obs.k = "v" /\ \A n \in DOMAIN x.routes : LET u == Resolve(x.entry, x.routes[n]) IN e.obs.v[n].path = UriText(u) /\ RangeOf(e.obs.v[n].qs) = RangeOf(u.qs), "routes",
            [n \in DOMAIN x.routes |-> Resolve(x.entry, x.routes[n])]))
    [] e.op = "coll" -> OneAsk(x, e, CollReq(x, e.id, e.nav, e.page), sc.body)
    [] e.op = "nav" -> OneAsk(x, e, [NavReq(x, e.id, e.lv, e.ref, e.group, e.excl, e.page) EXCEPT !.ps = @ \cup Opt2("max", e.max)], sc.body)
    [] e.op = "docu" -> OneAsk(x, e, DocReq(x, e.id, e.ref), sc.body)
    [] e.op = "pag" -> LET at(rel) == LET i == {i \in DOMAIN e.links : e.links[i].rel = rel} IN IF i = {} THEN <<>> ELSE LET k == CHOOSE k \in i : TRUE  P == {p \in RangeOf(e.links[k].qs) : p[1] = "page"} IN IF P = {} THEN <<>> ELSE <<(CHOOSE p \in P : TRUE)[2]>>
                           w == [previous |-> at("previous"), next |-> at("next"), last |-> at("last"), current |-> at("current"), first |-> at("first")]
                       IN Clause(IsV(e.obs, w), "pages of the links", w)
    [] e.op = "reffs" -> ReffsOK2(x, e)
    [] e.op = "open" -> Fetch(x, e, e.ref)
    [] e.op = "node" -> Fetch(x, e, e.ref)
    [] e.op = "id" -> LET h == H(x, e) IN AskedOK(x, e, IdNeeds(x, h, e.which)) \o Loud(e) \o
         (IF Failed(e.q) THEN <<>> ELSE IF e.which = "childIds" THEN Want(e, IsV(e.obs, KidsOf(x, h.ref)), "children", KidsOf(x, h.ref))
          ELSE IF e.which = "siblingsId" THEN LET w == SibOf(x, h.ref) IN Clause(e.obs.k = "v" /\ SameO(e.obs.v.prev, w.prev) /\ SameO(e.obs.v.next, w.next), "neighbours", w)
          ELSE LET w == Answer(x, h, e.which) IN Clause(e.obs.k = "v" /\ SameO(e.obs.v, w), e.which, w))
    [] e.op = "move" -> LET h == H(x, e)  to == Answer(x, h, e.mv) IN AskedOK(x, e, MoveNeeds(x, h, e.mv)) \o Loud(e) \o
         (IF Failed(e.q) THEN <<>> ELSE IF to = <<>> THEN Clause(IsV(e.obs, <<>>), "no such document", <<>>)
          ELSE Clause(e.obs.k = "v" /\ e.obs.v # <<>>, e.mv, to) \o (IF e.obs.k # "v" \/ e.obs.v = <<>> THEN <<>> ELSE NodeOK(x, e.served[1], to, e.obs.v[1])))
    [] e.op = "kids" -> LET h == H(x, e)  ks == KidsOf(x, h.ref) IN AskedOK(x, e, KidNeeds(x, h) \o [i \in DOMAIN ks |-> NodeNeed(x, <<ks[i]>>)]) \o Loud(e) \o
         (IF Failed(e.q) THEN <<>> ELSE Clause(e.obs.k = "v" /\ Len(e.obs.v) = Len(ks) /\ \A i \in DOMAIN ks : NodeOK(x, e.served[i], <<ks[i]>>, e.obs.v[i]) = <<>>, "children", ks))
    [] e.op = "hreffs" -> LET h == H(x, e)  r == IF e.ref # <<>> THEN e.ref ELSE h.ref  w == ReffsAt(x, r, DepthOf(r) + e.lv) IN
         AskedOK(x, e, NavNeeds(x, r, e.lv)) \o Loud(e) \o Want(e, IsV(e.obs, w), "references", w)
    [] e.op = "meta" -> LET h == H(x, e) IN AskedOK(x, e, CollNeeds(x, h)) \o Loud(e) \o (IF Failed(e.q) THEN <<>> ELSE Clause(e.obs.k = "v" /\ RangeOf(e.obs.v) = Said(sc.meta), "metadata", sc.meta))
    [] e.op = "depth" -> LET h == H(x, e) IN AskedOK(x, e, CollNeeds(x, h)) \o Loud(e) \o Want(e, IsV(e.obs, Len(x.sch)), "depth", Len(x.sch))
    [] OTHER -> <<<<"unknown event", e.op>>>>

Start(sc) == [entry |-> sc.entry, routes |-> sc.routes, known |-> FALSE, tid |-> sc.tid, per |-> sc.per, T |-> sc.doc, sch |-> sc.sch, tab |-> IF sc.doc = <<>> THEN <<>> ELSE Table(sc.doc, sc.sch), doc |-> Handle(<<>>), cur |-> Handle(<<>>), same |-> TRUE]
Ok(e) == e.obs.k = "v"
Done(q, needs) == needs # <<>> /\ \A j \in DOMAIN needs : \E i \in DOMAIN q : q[i].st = "ok" /\ Is(q[i], needs[j])
Learn(x, h, e) == [h EXCEPT !.kids = @ \/ (e.op \in {"id", "kids", "move"} /\ Done(e.q, KidNeeds(x, h))), !.coll = @ \/ (e.op \in {"meta", "depth"} /\ Done(e.q, CollNeeds(x, h)))]
Step(sc, x0, e) ==
  LET x == IF e.op \in {"serve", "pag"} THEN x0 ELSE [x0 EXCEPT !.known = KnownAfter(x0, e.q)] IN
  CASE e.op = "serve" -> Start(sc)
    [] e.op = "open" -> IF Ok(e) THEN [x EXCEPT !.doc = Handle(e.ref), !.cur = Handle(e.ref), !.same = TRUE] ELSE x
    [] e.op = "node" -> IF Ok(e) THEN [x EXCEPT !.cur = [Handle(e.ref) EXCEPT !.coll = H(x, e).coll], !.same = FALSE] ELSE x
    [] e.op \in {"id", "kids", "meta", "depth"} -> Put(x, e, Learn(x, H(x, e), e))
    [] e.op = "move" -> LET h == H(x, e)  y == Put(x, e, Learn(x, h, e)) IN IF Ok(e) /\ e.obs.v # <<>> THEN [y EXCEPT !.cur = [Handle(Answer(x, h, e.mv)) EXCEPT !.coll = h.coll], !.same = FALSE] ELSE y
    [] OTHER -> x
Init == s \in 1..Len(Scen) /\ l = 1 /\ st = [known |-> FALSE]
Next == /\ l <= Len(Scen[s].ev)
        /\ LET e == Scen[s].ev[l]
               v == Verdict(Scen[s], st, e)
           IN IF v # <<>> THEN Fail(Scen[s], l, v) ELSE st' = Step(Scen[s], st, e)
        /\ l' = l + 1 /\ s' = s
Spec == Init /\ [][Next]_<<s, l, st>>
=============================================================================
