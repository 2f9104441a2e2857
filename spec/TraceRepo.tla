------------------------------ MODULE TraceRepo ------------------------------
(* A scenario: folders on disk, a resolver reading them, then questions to it.
   st: [R inventory, inv names, repo, order (identifiers of the texts as listed)].                           *)
EXTENDS Repo, TextVerdicts
VARIABLES s, l, st
Rec(r) == [id |-> r.id, cls |-> r.cls, par |-> r.par, lang |-> r.lang, folder |-> r.folder, cit |-> r.cit]
Recs(q) == {Rec(q[i]) : i \in DOMAIN q}
Diff(a, b) == [missing |-> a \ b, extra |-> b \ a]
SameRecs(q, S, name) == Clause(Recs(q) = S /\ Len(q) = Cardinality(S), name, Diff(S, Recs(q)))
Labels(repo, q) == \A i \in DOMAIN q : RangeOf(q[i].lab) = LabelsOf(repo, q[i].id) /\ RangeOf(q[i].desc) = DescsOf(repo, q[i].id)
\* one of the values, one in English when there is
OneIn(S, o) == IF S = {} THEN o = <<>> ELSE o # <<>> /\ o[1] \in S /\ ((\E v \in S : v[1] = "eng") => o[1][1] = "eng")
NoFolder(S) == {[r EXCEPT !.folder = 0] : r \in S}
\* what is answered about text t under reference r : the text verdicts of its document
Txt(sc, t) == LET d == sc.docs[t.doc] IN [T |-> d.doc, sch |-> d.sch, tab |-> Table(d.doc, d.sch), urn |-> t.id, cur |-> <<>>]
\* the texts a text identifier may stand for: itself, or an edition of that work
Targets(R, id) == LET q == TextsOf(R)  own == SelectSeq(q, LAMBDA t : t.id = id) IN
  IF own # <<>> THEN own ELSE SelectSeq(q, LAMBDA t : t.cls = "ed" /\ Work(R, t.id) = id)
Best(vs) == IF \E i \in DOMAIN vs : vs[i] = <<>> THEN <<>> ELSE vs[1]
ForText(sc, x, e, v(_, _)) ==
  LET q == Targets(x.R, e.id) IN
  IF q = <<>> THEN Clause(IsX(e.obs), "unknown text is refused", "error")
  ELSE IF \E i \in DOMAIN q : q[i].file # "ok" THEN \* a text which cannot be read has no passage
    (IF Len(q) = 1 THEN Clause(IsX(e.obs), "unreadable text is refused", "error") ELSE <<>>)
  ELSE Best([i \in DOMAIN q |-> v(q[i], Txt(sc, q[i]))])
\* what the metadata of a text say, on the object o
Said(x, o, t) ==
        Clause(RangeOf(o.creator) = LabelsOf(x.repo, Group(x.R, t.id)) /\ RangeOf(o.title) = LabelsOf(x.repo, Work(x.R, t.id)) /\ RangeOf(o.subject) = LabelsOf(x.repo, t.id),
               "metadata of the passage", <<LabelsOf(x.repo, Group(x.R, t.id)), LabelsOf(x.repo, Work(x.R, t.id)), LabelsOf(x.repo, t.id)>>)
        \o Clause(RangeOf(o.desc) = DescsOf(x.repo, t.id), "description of the passage", DescsOf(x.repo, t.id))
        \o Clause(OneIn(LabelsOf(x.repo, Group(x.R, t.id)), o.cts[1]) /\ OneIn(LabelsOf(x.repo, Work(x.R, t.id)), o.cts[2]) /\ OneIn(LabelsOf(x.repo, t.id), o.cts[3]) /\ OneIn(DescsOf(x.repo, t.id), o.cts[4]), "CTS properties of the passage", t.id)
\* a passage requested through the resolver
RefOrAll(e) == ORef(e.ref)
Node(sc, x, e, t, X) ==
  (IF e.ref = <<>> THEN
     Clause(e.obs.k = "v", "text", t.id) \o (IF e.obs.k # "v" THEN <<>> ELSE
       Clause(e.obs.v.tree = X.T, "tree of the text", "the document") \o Clause(e.obs.v.urn = t.id, "urn of the text", t.id) \o Clause(e.obs.v.ref = "", "no reference", ""))
   ELSE PassOK(X, Ref(e.ref[1]), FALSE, e.obs))
  \o (IF e.obs.k # "v" \/ ~e.meta THEN <<>> ELSE Said(x, e.obs.v, t))
Sib(X, r, o) ==
  IF ~Known(X.tab, r) THEN Clause(IsX(o), "unknown passage is refused", "error")
  ELSE IF Len(r.a.parts) # Len(EndOf(r).parts) THEN Clause(IsXOf(o, "InvalidSiblingRequest"), "neighbours of ends of different depth are refused", "InvalidSiblingRequest")
  ELSE LET w == Sibling(X.tab, r) IN Clause(o.k = "v" /\ SameRef(o.v.prev, w.prev) /\ SameRef(o.v.next, w.next), "neighbours", w)

Verdict(sc, x, e) ==
  CASE e.op = "load" ->
        LET undis == e.undis /\ Undispatched(<<>>, GroupsFrom(e.repo, 1), e.rules)
            bad == e.strict /\ Broken(e.repo)
            W == Loaded(e.repo, e.rules)
        IN IF bad THEN Clause(IsX(e.obs), "unreadable metadata are reported", "error")
           ELSE IF undis THEN Clause(IsXOf(e.obs, "UndispatchedTextError"), "undispatched textgroup is reported", "UndispatchedTextError")
           ELSE Clause(e.obs.k = "v", "loading", "no error") \o (IF e.obs.k # "v" THEN <<>> ELSE
                SameRecs(e.obs.v.recs, RangeOf(Flat(W)), "inventory") \o Clause(Labels(e.repo, e.obs.v.recs), "labels", {<<r.id, LabelsOf(e.repo, r.id)>> : r \in RangeOf(Flat(W))})
                \o Clause(RangeOf(e.obs.v.texts) = {t.id : t \in RangeOf(TextsOf(W))} /\ Len(e.obs.v.texts) = Len(TextsOf(W)), "texts", {t.id : t \in RangeOf(TextsOf(W))})
                \o Clause(e.obs.v.invs = sc.invs, "inventories", sc.invs))
    [] e.op = "meta" ->
        LET all == RangeOf(Flat(x.R)) IN
        IF e.arg = <<>> \/ e.arg[1] = sc.root THEN Clause(e.obs.k = "v", "everything", "no error") \o (IF e.obs.k # "v" THEN <<>> ELSE SameRecs(e.obs.v.recs, all, "everything"))
        ELSE IF e.arg[1] \in RangeOf(sc.invs) THEN
             Clause(e.obs.k = "v", "inventory", "no error") \o (IF e.obs.k # "v" THEN <<>> ELSE
               SameRecs(e.obs.v.recs, {r \in all : r.par = e.arg[1] \/ \E g \in all : g.cls = "tg" /\ g.par = e.arg[1] /\ (r.par = g.id \/ \E w \in all : w.par = g.id /\ r.par = w.id)}, "inventory"))
        ELSE LET P == Part(x.R, e.arg[1]) IN
             IF P = {} THEN Clause(IsX(e.obs), "unknown object is refused", "error")
             ELSE Clause(e.obs.k = "v", "part of the inventory", P) \o (IF e.obs.k # "v" THEN <<>> ELSE
                  SameRecs(e.obs.v.recs, NoFolder(P), "part of the inventory") \o Clause(Labels(x.repo, e.obs.v.recs), "labels", "labels")
                  \o Clause(e.obs.v.up = (LET up(i) == (CHOOSE r \in all : r.id = i).par
                                              a == up(e.arg[1])
                                              known(i) == \E r \in all : r.id = i
                                              b == IF known(a) THEN <<up(a)>> ELSE <<>>
                                              c == IF b # <<>> /\ known(b[1]) THEN <<up(b[1])>> ELSE <<>>
                                          IN <<a>> \o b \o c), "collections above", "parents"))
    [] e.op = "filter" ->
        LET by(id) == (CHOOSE t \in RangeOf(TextsOf(x.R)) : t.id = id)
            ok(id) == LET t == by(id) IN t.cit # <<>> /\ (e.lang = <<>> \/ t.lang = e.lang) /\ (e.cat = <<>> \/ t.cls = e.cat[1])
                        /\ (e.urn = <<>> \/ t.id = e.urn[1] \/ Work(x.R, id) = e.urn[1] \/ Group(x.R, id) = e.urn[1])
            m == SelectSeq(x.order, ok)
            pg == PageOf(e.page, e.limit, Len(m))
        IN IF e.paged THEN Clause(e.res.ids = SubSeq(m, pg[1] + 1, pg[2]) /\ e.res.page = pg[3] /\ e.res.count = pg[4], "page of texts", <<m, pg>>)
           ELSE Clause(e.res.ids = m /\ e.res.count = Len(m), "texts", m)
    [] e.op = "page" -> Clause(e.res = PageOf(e.page, e.limit, e.length), "pagination", PageOf(e.page, e.limit, e.length))
    [] e.op = "rnode" -> ForText(sc, x, e, LAMBDA t, X : Node(sc, x, e, t, X))
    [] e.op = "rreffs" -> ForText(sc, x, e, LAMBDA t, X : ReffsOK(X, RefOrAll(e), e.lv, e.obs))
    [] e.op = "rsib" -> ForText(sc, x, e, LAMBDA t, X : Sib(X, Ref(e.ref[1]), e.obs))
    \* an object of the text, filled from the inventory alone: readable or not
    [] e.op = "fill" -> LET q == SelectSeq(TextsOf(x.R), LAMBDA t : t.id = e.id) IN
         IF q = <<>> THEN Clause(IsX(e.obs), "unknown text is refused", "error")
         ELSE Clause(e.obs.k = "v", "text described by the inventory", q[1].id) \o (IF e.obs.k # "v" THEN <<>> ELSE
              Said(x, e.obs.v, q[1]) \o Clause(e.obs.v.cit = [i \in DOMAIN q[1].cit |-> q[1].cit[i].name], "scheme from the inventory", q[1].cit))
    [] OTHER -> <<<<"unknown event", e.op>>>>
Step(x, e) == IF e.op = "load" THEN [R |-> Loaded(e.repo, e.rules), repo |-> e.repo, order |-> IF e.obs.k = "v" THEN e.obs.v.texts ELSE <<>>] ELSE x
Init == s \in 1..Len(Scen) /\ l = 1 /\ st = [R |-> <<>>, repo |-> <<>>, order |-> <<>>]
Next == /\ l <= Len(Scen[s].ev)
        /\ LET e == Scen[s].ev[l]
               v == Verdict(Scen[s], st, e)
           IN IF v # <<>> THEN Fail(Scen[s], l, v) ELSE st' = Step(st, e)
        /\ l' = l + 1 /\ s' = s
Spec == Init /\ [][Next]_<<s, l, st>>
=============================================================================
