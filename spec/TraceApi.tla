------------------------------ MODULE TraceApi ------------------------------
(* A scenario: an endpoint (one text, its labels), then calls.  Every event carries the requests received by the
   endpoint in e.q.  st: x the text, text (handle) and cur (handle or none).                                   *)
EXTENDS CtsApi, TextVerdicts
VARIABLES s, l, st
Set_(q) == RangeOf(q)
Lang(o) == IF o = <<>> THEN "eng" ELSE o[1]
\* labels <<kind, lang option, text>> as remembered
Labs(q) == {<<q[i].kind, Lang(q[i].lang), q[i].tx>> : i \in DOMAIN q}
MatchOK(q, needs, known) == Clause(Match(q, needs, known), "requests", <<needs, known>>)
\* a failed request is never silent
Loud(e) == Clause(~Failed(e.q) \/ IsX(e.obs), "failed request reported", "error")

\* ---- the retriever itself
\* parameters of the endpoint address itself come with every request
CallOK(e) == Clause(Len(e.q) = 1 /\ Pars(e.q[1]) = CallReq(e) \cup RangeOf(e.eps) /\ Plain1(e.q[1]), "request", CallReq(e))
             \o Clause(e.q = <<>> \/ (e.q[1].verb = "GET" /\ e.q[1].base = e.base), "address", e.base)
             \o (IF Failed(e.q) THEN Clause(IsX(e.obs), "failed request reported", "error") ELSE Clause(IsV(e.obs, e.body), "answer is the reply", e.body))

\* ---- passages
NodeOK(x, tid, ref, o) ==
  LET T == x.T IN
  IF ref = <<>> THEN Clause(o.tree = T, "content of the text", "document") \o Clause(o.urn = tid, "urn", tid) \o Clause(o.ref = "" /\ o.depth = 0, "reference", "none") \o Clause(o.plain = Plain(T, {}, " "), "plain text", Plain(T, {}, " "))
  ELSE LET r == Ref(ref[1]) IN
       Clause(o.ref = PrintRef(r), "reference of the passage", ref) \o Clause(o.urn = tid \o ":" \o PrintRef(r), "urn of the passage", tid \o ":" \o PrintRef(r))
       \o Clause(o.depth = Depth(r), "depth of the passage", Depth(r)) \o Clause(o.tree = x.served[1], "content of the passage", x.served)
       \o Clause(PassageOK(T, A(x, r), Z(x, r), o.tree), "content of the passage is that of the text", "passage")
       \o Clause(o.plain = Plain(o.tree, {}, " "), "plain text", Plain(o.tree, {}, " "))
\* asked for the passage at ref (any way): needs, then the passage or an error
Fetch(x, e, needs, known, ref) ==
  MatchOK(e.q, needs, known) \o Loud(e) \o
  (IF Failed(e.q) THEN <<>> ELSE Clause(e.obs.k = "v", "passage", ref) \o (IF e.obs.k # "v" THEN <<>> ELSE NodeOK([x EXCEPT !.served = e.served], x.urn, ref, e.obs.v)))
PlusNeed(tid, ref) == N("", Req("GetPassagePlus", UrnOf(tid, ref)))
ReffNeed(tid, ref, lv) == N("", Req("GetValidReff", UrnOf(tid, ref)) \cup {<<"level", NatStr(lv)>>})
LabelNeed(h) == N("cit", Req("GetLabel", UrnOf(h.tid, h.ref)))
\* a list of references asked of the endpoint
ListOK(x, e, ref, lv) ==
  MatchOK(e.q, <<ReffNeed(x.urn, ref, lv)>>, {}) \o Loud(e) \o
  (IF Failed(e.q) THEN <<>> ELSE Clause(IsV(e.obs, ReffsAt(x, ref, lv)), "references", ReffsAt(x, ref, lv)))
LevelFor(h, ref, lv) == lv + (IF ref # <<>> THEN DepthOf(ref) ELSE DepthOf(h.ref))
Target1(h, ref) == IF ref # <<>> THEN ref ELSE h.ref
H(x, e) == CASE e.h = "text" -> x.text [] e.h = "cur" -> x.cur [] OTHER -> Handle(x.urn, <<>>)
SameOpt(o, w) == SameRef(o, w)
IdOK(x, h, e) ==
  IF e.which = "siblingsId" THEN LET w == SibOf(x, h.ref) IN Clause(e.obs.k = "v" /\ SameOpt(e.obs.v.prev, w.prev) /\ SameOpt(e.obs.v.next, w.next), "neighbours", w)
  ELSE IF e.which = "childIds" THEN Clause(IsV(e.obs, KidsOf(x, h.ref)), "children", KidsOf(x, h.ref))
  ELSE LET w == Answer(x, h, e.which) IN
       IF e.which = "lastId" /\ w = <<>> THEN Clause(IsX(e.obs) \/ e.obs.v = <<>>, "last of nothing", <<>>)
       ELSE Clause(e.obs.k = "v" /\ SameOpt(e.obs.v, w), e.which, w)
\* is the question answerable by the endpoint
Ask1(x, h, which) == IF KeyOf(which) = "sib" THEN SameDepth(h.ref) ELSE IF KeyOf(which) = "kids" THEN x.empty \/ KidsOf(x, h.ref) # <<>> ELSE TRUE

\* exports.  A text is fetched first; a dictionary asks for the deepest references and for each of them
LeafUnits(x, ref) ==
  LET n == Len(x.sch)  r == Ref(ref[1]) IN
  IF ref = <<>> THEN x.tab[n]
  ELSE IF Len(r.a.parts) = n /\ ~IsRange(r) THEN SelectSeq(x.tab[n], LAMBDA u : u.parts = r.a.parts)
  ELSE Available(x.T, x.tab, AsRef(ref), n)
DictAsked(x, ref) == {LabelNeed(Handle(x.urn, ref)).q, ReffNeed(x.urn, ref, Len(x.sch)).q}
                     \cup {NodeNeed(x.urn, <<RefsOf(<<u>>)[1]>>).q : u \in RangeOf(LeafUnits(x, ref))}
DictOK(x, e, ref, q) ==
  LET leaves == LeafUnits(x, ref)
      want == [i \in DOMAIN leaves |-> [p |-> leaves[i].parts, t |-> Plain(Sub(x.T, leaves[i].node), RangeOf(e.excl), " ")]]
  IN Clause(\A i \in DOMAIN q : Pars(q[i]) \in DictAsked(x, ref), "requests", DictAsked(x, ref))
     \o (IF Failed(q) THEN <<>> ELSE IF leaves = <<>> THEN Clause(IsX(e.obs) \/ e.obs.v = <<>>, "nothing in the dictionary", <<>>)
         ELSE Clause(IsV(e.obs, want), "dictionary of the passages", want))
ExportOK(x, h, e) ==
  LET first == IF e.h = "text" THEN <<NodeNeed(x.urn, h.ref)>> ELSE <<>>
      q1 == SubSeq(e.q, 1, IF e.q = <<>> THEN 0 ELSE Len(first))
      tree == IF e.h = "text" THEN (IF e.served = <<>> THEN <<>> ELSE e.served[1]) ELSE e.tree
      w == IF e.fmt = "plain" THEN Plain(tree, RangeOf(e.excl), " ") ELSE tree
  IN MatchOK(q1, first, {}) \o Loud(e)
     \o (IF e.fmt = "dict" THEN (IF Failed(q1) THEN Clause(e.q = q1, "requests", first) ELSE DictOK(x, e, h.ref, SubSeq(e.q, Len(q1) + 1, Len(e.q))))
         ELSE Clause(e.q = q1, "requests", first) \o (IF Failed(e.q) THEN <<>> ELSE Clause(IsV(e.obs, w), "export", w)))

Verdict(sc, x, e) ==
  CASE e.op = "serve" -> <<>>
    [] e.op = "call" -> CallOK(e)
    [] e.op = "open" -> Clause(e.q = <<>>, "nothing is asked", 0) \o Clause(e.obs.k = "v", "text", "text")
    [] e.op \in {"rnode", "rplus"} -> Fetch(x, e, IF e.op = "rplus" THEN <<PlusNeed(x.urn, e.ref)>> ELSE <<NodeNeed(x.urn, e.ref)>>, {}, e.ref)
    [] e.op = "node" -> LET h == H(x, e)  r == Target1(h, e.ref) IN Fetch(x, e, <<NodeNeed(x.urn, r)>>, {}, r)
    [] e.op = "plus" -> LET h == H(x, e)  r == Target1(h, e.ref) IN Fetch(x, e, <<PlusNeed(x.urn, r)>>, {}, r)
    [] e.op = "reffs" -> LET h == H(x, e) IN ListOK(x, e, Target1(h, e.ref), LevelFor(h, e.ref, e.lv))
    [] e.op = "valid" -> LET h == H(x, e) IN ListOK(x, e, Target1(h, e.ref), e.lv)
    [] e.op = "allreffs" -> LET n == Len(x.sch) IN
         MatchOK(e.q, <<LabelNeed(x.text)>> \o [i \in 1..n |-> ReffNeed(x.urn, x.text.ref, i)], x.text.known) \o Loud(e) \o
         (IF Failed(e.q) THEN <<>> ELSE LET w == ConcatAll([i \in 1..n |-> ReffsAt(x, x.text.ref, i)]) IN Clause(IsV(e.obs, w), "all references", w))
    [] e.op = "pn" -> MatchOK(e.q, <<NeedOf([x.text EXCEPT !.ref = e.ref], "sib")>>, {}) \o Loud(e) \o
         (IF Failed(e.q) THEN <<>> ELSE LET w == SibOf(x, e.ref) IN Clause(e.obs.k = "v" /\ SameOpt(e.obs.v.prev, w.prev) /\ SameOpt(e.obs.v.next, w.next), "neighbours", w))
    [] e.op = "fu" -> LET h == H(x, e) r == Target1(h, e.ref) IN MatchOK(e.q, <<NeedOf([x.text EXCEPT !.ref = r], "first")>>, {}) \o Loud(e) \o
         (IF Failed(e.q) THEN <<>> ELSE LET w == FirstOf(KidsOf(x, r)) IN Clause(IsV(e.obs, w), "first", w))
    [] e.op = "id" -> LET h == H(x, e) IN
         MatchOK(e.q, IdNeeds(h, e.which), h.known) \o Loud(e) \o
         (IF Failed(e.q) THEN <<>> ELSE IdOK(x, h, e))
    [] e.op = "move" -> LET h == H(x, e) IN
         IF ~Ask1(x, h, e.mv) THEN MatchOK(e.q, IdNeeds(h, e.mv), h.known) \o Clause(IsX(e.obs), "refused", "error")
         ELSE LET to == Dest(x, h, e.mv)
              IN MatchOK(e.q, MoveNeeds(x, h, e.mv), h.known)
                 \o Loud(e) \o (IF Failed(e.q) \/ (to = <<>> /\ e.mv = "last") THEN <<>>
                    ELSE IF to = <<>> THEN Clause(IsV(e.obs, <<>>), "no such passage", <<>>)
                    ELSE Clause(e.obs.k = "v" /\ e.obs.v # <<>>, e.mv, to) \o (IF e.obs.k # "v" \/ e.obs.v = <<>> THEN <<>> ELSE NodeOK([x EXCEPT !.served = e.served], x.urn, to, e.obs.v[1])))
    [] e.op = "kids" -> LET h == H(x, e)  ks == KidsOf(x, h.ref) IN
         Clause(Match(e.q, <<NeedOf(h, "kids")>> \o [i \in DOMAIN ks |-> NodeNeed(x.urn, <<ks[i]>>)], h.known), "requests", ks) \o Loud(e) \o
         (IF Failed(e.q) THEN <<>> ELSE Clause(e.obs.k = "v" /\ Len(e.obs.v) = Len(ks) /\ \A i \in DOMAIN ks : NodeOK([x EXCEPT !.served = <<e.served[i]>>], x.urn, <<ks[i]>>, e.obs.v[i]) = <<>>, "children", ks))
    [] e.op = "export" -> ExportOK(x, H(x, e), e)
    [] e.op = "label" -> MatchOK(e.q, <<[LabelNeed(H(x, e)) EXCEPT !.k = ""]>>, {}) \o Loud(e)
    [] e.op = "meta" -> LET h == H(x, e) IN Clause(e.q = <<>>, "nothing is asked", 0) \o Clause(Set_(e.res) = h.meta, "labels", h.meta)
    [] e.op = "cit" -> LET h == H(x, e) IN Clause(IF "cit" \in h.known THEN e.res = sc.pats ELSE TRUE, "citation scheme", sc.pats)
    [] OTHER -> <<<<"unknown event", e.op>>>>

\* labels and scheme which come along with a reply
InReq(sc, q) == IF \E i \in DOMAIN q : q[i].st = "ok" THEN Labs(sc.req) ELSE {}
CitReq(sc, q) == IF sc.citreq /\ \E i \in DOMAIN q : q[i].st = "ok" THEN {"cit"} ELSE {}
Put(x, e, h) == CASE e.h = "text" -> [x EXCEPT !.text = h] [] e.h = "cur" -> [x EXCEPT !.cur = h] [] OTHER -> x
\* replies about references and passages carry the request's labels; those about neighbours are read for them only
Told(sc, h, q, needs, tells) == [h EXCEPT !.known = @ \cup Learnt(q, needs) \cup (IF tells THEN CitReq(sc, q) ELSE {}), !.meta = @ \cup (IF tells THEN InReq(sc, q) ELSE {})]
NewNode(sc, x, ref) == [Handle(x.urn, ref) EXCEPT !.known = IF sc.citreq THEN {"cit"} ELSE {}]
NewPlus(sc, x, ref) == [Handle(x.urn, ref) EXCEPT !.known = {"cit"} \cup (IF ref # <<>> /\ SameDepth(ref) THEN {"sib"} ELSE {}), !.meta = Labs(sc.lab)]
IsLast(q, name) == SelectSeq(q, LAMBDA r : r.st = "ok" /\ <<"request", name>> \in Pars(r))
Start(sc) == IF sc.doc = <<>> THEN [urn |-> "", T |-> <<>>, sch |-> <<>>, tab |-> <<>>, served |-> <<>>, empty |-> FALSE, text |-> Handle("", <<>>), cur |-> Handle("", <<>>)]
  ELSE [urn |-> sc.tid, T |-> sc.doc, sch |-> sc.sch, tab |-> Table(sc.doc, sc.sch), served |-> <<>>, empty |-> sc.empty, text |-> Handle(sc.tid, <<>>), cur |-> Handle(sc.tid, <<>>)]
Step(sc, x, e) ==
  CASE e.op = "serve" -> Start(sc)
    [] e.op = "open" -> [x EXCEPT !.text = Handle(x.urn, e.ref), !.cur = Handle(x.urn, e.ref)]
    [] e.op = "rnode" -> IF e.obs.k = "v" THEN [x EXCEPT !.cur = NewNode(sc, x, e.ref)] ELSE x
    [] e.op = "rplus" -> IF e.obs.k = "v" THEN [x EXCEPT !.cur = NewPlus(sc, x, e.ref)] ELSE x
    [] e.op \in {"reffs", "valid"} -> Put(x, e, Told(sc, H(x, e), e.q, <<>>, TRUE))
    [] e.op = "allreffs" -> LET h == Told(sc, x.text, e.q, <<LabelNeed(x.text)>>, IsLast(e.q, "GetValidReff") # <<>>) IN
         [x EXCEPT !.text = [h EXCEPT !.meta = @ \cup IF IsLast(e.q, "GetLabel") # <<>> THEN Labs(sc.lab) ELSE {}]]
    [] e.op = "node" -> LET y == Put(x, e, Told(sc, H(x, e), e.q, <<>>, TRUE)) IN
         IF e.obs.k = "v" THEN [y EXCEPT !.cur = NewNode(sc, x, Target1(H(x, e), e.ref))] ELSE y
    [] e.op = "plus" -> IF e.obs.k = "v" THEN [(Put(x, e, [H(x, e) EXCEPT !.known = @ \cup {"cit"}])) EXCEPT !.cur = NewPlus(sc, x, Target1(H(x, e), e.ref))] ELSE x
    [] e.op = "id" -> Put(x, e, Told(sc, H(x, e), e.q, IdNeeds(H(x, e), e.which), KeyOf(e.which) = "kids"))
    [] e.op = "move" -> LET tells == IsLast(e.q, "GetPassage") # <<>> \/ IsLast(e.q, "GetValidReff") # <<>>
                           y == Put(x, e, Told(sc, H(x, e), e.q, IdNeeds(H(x, e), e.mv), tells))
                       IN IF e.obs.k = "v" /\ e.obs.v # <<>> THEN [y EXCEPT !.cur = NewNode(sc, x, Dest(x, H(x, e), e.mv))] ELSE y
    [] e.op = "kids" -> Put(x, e, Told(sc, H(x, e), e.q, <<NeedOf(H(x, e), "kids")>>, TRUE))
    [] e.op = "export" -> IF e.h = "text" THEN Put(x, e, Told(sc, H(x, e), SubSeq(e.q, 1, IF e.q = <<>> THEN 0 ELSE 1), <<>>, TRUE))
         ELSE LET h == Told(sc, H(x, e), e.q, <<LabelNeed(H(x, e))>>, IsLast(e.q, "GetPassage") # <<>> \/ IsLast(e.q, "GetValidReff") # <<>>) IN
              Put(x, e, [h EXCEPT !.meta = @ \cup IF IsLast(e.q, "GetLabel") # <<>> THEN Labs(sc.lab) ELSE {}])
    [] e.op = "label" -> IF Failed(e.q) THEN x ELSE Put(x, e, [H(x, e) EXCEPT !.known = @ \cup {"cit"}, !.meta = @ \cup Labs(sc.lab)])
    [] OTHER -> x
Init == s \in 1..Len(Scen) /\ l = 1 /\ st = Start([doc |-> <<>>])
Next == /\ l <= Len(Scen[s].ev)
        /\ LET e == Scen[s].ev[l]
               v == Verdict(Scen[s], st, e)
           IN IF v # <<>> THEN Fail(Scen[s], l, v) ELSE st' = Step(Scen[s], st, e)
        /\ l' = l + 1 /\ s' = s
Spec == Init /\ [][Next]_<<s, l, st>>
=============================================================================
