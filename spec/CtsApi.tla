------------------------------- MODULE CtsApi -------------------------------
(* A client of a CTS endpoint.  The endpoint holds one text [T, sch, tab] called tid, with its labels; a client
   object (handle) stands for the text (ref = <<>>) or a passage of it, and remembers some answers:
     [tid, ref, known, meta]   known \subseteq {"sib", "first", "kids", "cit"}, meta: <<kind, lang, text>>...
   Every question has needs: the requests which must be made (in order) unless their answer is remembered.
   A request is the set of its parameters <<name, value>>.  Faults: a request may fail.                      *)
EXTENDS CtsText
Opt2(k, o) == IF o = <<>> THEN {} ELSE {<<k, o[1]>>}
Req(name, urn) == {<<"request", name>>, <<"urn", urn>>}
UrnOf(tid, ref) == IF ref = <<>> THEN tid ELSE tid \o ":" \o ref[1]
DepthOf(ref) == IF ref = <<>> THEN 0 ELSE Depth(Ref(ref[1]))
Handle(tid, ref) == [tid |-> tid, ref |-> ref, known |-> {}, meta |-> {}]

\* ---- what the endpoint answers
KnownRef(x, ref) == ref = <<>> \/ Known(x.tab, Ref(ref[1]))
SameDepth(ref) == LET r == Ref(ref[1]) IN Len(r.a.parts) = Len(EndOf(r).parts)
AsRef(ref) == IF ref = <<>> THEN <<>> ELSE <<Ref(ref[1])>>
ReffsAt(x, ref, lv) == IF lv \notin DOMAIN x.tab THEN <<>> ELSE RefsOf(Available(x.T, x.tab, AsRef(ref), lv))
KidsOf(x, ref) == ReffsAt(x, ref, DepthOf(ref) + 1)
FirstOf(q) == IF q = <<>> THEN <<>> ELSE <<q[1]>>
LastOf(q) == IF q = <<>> THEN <<>> ELSE <<q[Len(q)]>>
SibOf(x, ref) == Sibling(x.tab, Ref(ref[1]))
ParentOf(ref) == LET p == Parent(Ref(ref[1])) IN IF p = <<>> THEN <<>> ELSE <<PrintRef(p[1])>>
\* which requests the endpoint refuses
Refused(x, need, ref, lv) ==
  ~KnownRef(x, ref) \/ (need = "sib" /\ ~SameDepth(ref)) \/ (need = "reffs" /\ ReffsAt(x, ref, lv) = <<>>)

\* ---- questions about the neighbourhood of a handle
Ids == {"prevId", "nextId", "siblingsId", "parentId", "childIds", "firstId", "lastId"}
KeyOf(which) == CASE which \in {"prevId", "nextId", "siblingsId", "prev", "next"} -> "sib"
                  [] which \in {"firstId", "first"} -> "first"
                  [] which \in {"childIds", "lastId", "last"} -> "kids"
                  [] OTHER -> ""
N(k, q) == [k |-> k, q |-> q]
NeedOf(h, k) ==
  CASE k = "sib" -> N(k, Req("GetPrevNextUrn", UrnOf(h.tid, h.ref)))
    [] k = "first" -> N(k, Req("GetFirstUrn", UrnOf(h.tid, h.ref)))
    [] k = "kids" -> N(k, Req("GetValidReff", UrnOf(h.tid, h.ref)) \cup {<<"level", NatStr(DepthOf(h.ref) + 1)>>})
    [] OTHER -> N(k, {})
NodeNeed(tid, ref) == N("", Req("GetPassage", UrnOf(tid, ref)))
IdNeeds(h, which) == IF KeyOf(which) = "" THEN <<>> ELSE <<NeedOf(h, KeyOf(which))>>
Answer(x, h, which) ==
  CASE which = "prevId" -> SibOf(x, h.ref).prev
    [] which = "nextId" -> SibOf(x, h.ref).next
    [] which = "parentId" -> ParentOf(h.ref)
    [] which = "firstId" -> FirstOf(KidsOf(x, h.ref))
    [] which = "lastId" -> LastOf(KidsOf(x, h.ref))
    [] OTHER -> <<>>
IdOf(mv) == CASE mv = "next" -> "nextId" [] mv = "prev" -> "prevId" [] mv = "first" -> "firstId" [] mv = "last" -> "lastId" [] OTHER -> "parentId"
Dest(x, h, mv) == Answer(x, h, IdOf(mv))
MoveNeeds(x, h, mv) == IdNeeds(h, mv) \o (IF Dest(x, h, mv) = <<>> THEN <<>> ELSE <<NodeNeed(h.tid, Dest(x, h, mv))>>)

\* ---- requests as seen by the endpoint: q[i] = [ps (array of pairs), st]
Pars(r) == RangeOf(r.ps)
Plain1(r) == Len(r.ps) = Cardinality(Pars(r))          \* no parameter twice
RECURSIVE Match(_, _, _)
Match(q, needs, known) ==
  IF needs = <<>> THEN q = <<>>
  ELSE IF q # <<>> /\ Pars(q[1]) = needs[1].q /\ Plain1(q[1])
       THEN IF q[1].st # "ok" THEN Len(q) = 1 ELSE Match(Tail(q), Tail(needs), known)
       ELSE needs[1].k \in known /\ Match(q, Tail(needs), known)
Failed(q) == \E i \in DOMAIN q : q[i].st # "ok"
\* what is remembered after the requests q made for needs
Learnt(q, needs) == {needs[j].k : j \in {j \in DOMAIN needs : \E i \in DOMAIN q : q[i].st = "ok" /\ Pars(q[i]) = needs[j].q}} \ {""}

\* ---- the retriever itself: one call, one request
CallReq(e) ==
  LET a == e.a  inv == IF a.inv # <<>> THEN a.inv ELSE e.dinv
      full == IF a.ref = <<>> THEN a.urn ELSE <<a.urn[1] \o ":" \o a.ref[1]>>
      base(n, u) == {<<"request", n>>} \cup Opt2("urn", u) \cup Opt2("inv", inv)
  IN CASE e.m = "getCapabilities" \/ e.m = "getMetadata" -> base("GetCapabilities", a.urn)
       [] e.m = "getValidReff" -> base("GetValidReff", a.urn) \cup Opt2("level", a.level)
       [] e.m = "getReffs" -> base("GetValidReff", full) \cup {<<"level", NatStr(NatVal(a.level[1]) + DepthOf(a.ref))>>}
       [] e.m = "getFirstUrn" -> base("GetFirstUrn", a.urn)
       [] e.m = "getPrevNextUrn" -> base("GetPrevNextUrn", a.urn)
       [] e.m = "getSiblings" -> base("GetPrevNextUrn", full)
       [] e.m = "getLabel" -> base("GetLabel", a.urn)
       [] e.m = "getPassage" -> base("GetPassage", a.urn) \cup Opt2("context", a.context)
       [] e.m = "getPassagePlus" -> base("GetPassagePlus", a.urn) \cup Opt2("context", a.context)
       [] e.m = "getTextualNode" -> base(IF a.plus THEN "GetPassagePlus" ELSE "GetPassage", full)
=============================================================================
