----------------------------- MODULE TextVerdicts -----------------------------
(* Verdicts on what a text answers.  x is the abstract text: T the tree, sch the scheme, tab the units, urn.  *)
EXTENDS CtsText, Trace

ORef(t) == IF t = <<>> THEN <<>> ELSE <<Ref(t[1])>>
Refs(x, r, lv) == RefsOf(Available(x.T, x.tab, r, lv))
\* set of references as observed: o.refs strings, o.level, o.cit index of the citation level in the scheme
ReffsOK(x, r, lv0, o) ==
  LET lv == Level(r, lv0)  n == Len(x.sch) IN
  IF r # <<>> /\ ~Known(x.tab, r[1]) THEN
       Clause(IsX(o), "unknown reference is refused", "error")
  ELSE IF lv > n THEN Clause(IsXOf(o, "CitationDepthError"), "too deep a level is refused", lv)
  ELSE LET want == Refs(x, r, lv) IN
       IF want = <<>> THEN Clause(IsX(o) \/ o.v.refs = <<>>, "nothing available", <<>>)
       ELSE Clause(o.k = "v", "references available", want)
            \o (IF o.k # "v" THEN <<>> ELSE
                  Clause(o.v.refs = want, "references available", want)
                  \o Clause(o.v.level = lv, "level of the set", lv)
                  \o Clause(o.v.cit = lv, "citation of the set", lv)
                  \o Clause(o.v.depths, "depth of the members", lv))

A(x, r) == NodeOf(x.tab, r.a.parts)
Z(x, r) == NodeOf(x.tab, EndOf(r).parts)

\* a passage as observed: ref, urn, depth, tree
PassOK(x, r, simple, o) ==
  IF ~Known(x.tab, r) THEN Clause(IsX(o), "unknown passage is refused", "error")
  ELSE Clause(o.k = "v", "passage", PrintRef(r))
       \o (IF o.k # "v" THEN <<>> ELSE
            Clause(o.v.ref = PrintRef(r), "reference of the passage", PrintRef(r))
            \o Clause(x.urn = "" \/ o.v.urn = x.urn \o ":" \o PrintRef(r), "urn of the passage", PrintRef(r))
            \o Clause(o.v.depth = Len(r.a.parts), "depth of the passage", Len(r.a.parts))
            \o Clause(IF simple THEN o.v.tree = Sub(x.T, A(x, r)) ELSE PassageOK(x.T, A(x, r), Z(x, r), o.v.tree),
                      "content of the passage", IF simple THEN Sub(x.T, A(x, r)) ELSE PassageOf(x.T, A(x, r), Z(x, r))))

SameRefs(o, want) == Len(o) = Len(want) /\ \A i \in DOMAIN o : Canon(o[i]) = Canon(want[i])
\* navigation of a passage: prev, next, children, first, last
NavOK(x, r, o) ==
  LET da == Len(r.a.parts)  db == Len(EndOf(r).parts) IN
  IF da # db THEN Clause(IsXOf(o.sib, "InvalidSiblingRequest") /\ IsX(o.kids), "neighbours of ends of different depth are refused", "InvalidSiblingRequest")
  ELSE LET sib == Sibling(x.tab, r)
           kids == IF da = Len(x.sch) THEN <<>> ELSE Refs(x, <<r>>, da + 1)
       IN Clause(o.sib.k = "v" /\ SameRef(o.sib.v.prev, sib.prev), "previous", sib.prev)
          \o Clause(o.sib.k = "v" /\ SameRef(o.sib.v.next, sib.next), "next", sib.next)
          \o (IF kids = <<>> /\ o.kids.k # "v" THEN <<>> ELSE
                Clause(o.kids.k = "v" /\ SameRefs(o.kids.v.ids, kids), "children", kids)
                \o Clause(o.kids.k = "v" /\ o.kids.v.first = (IF kids = <<>> THEN <<>> ELSE <<kids[1]>>), "first child", kids)
                \o Clause(o.kids.k = "v" /\ o.kids.v.last = (IF kids = <<>> THEN <<>> ELSE <<kids[Len(kids)]>>), "last child", kids))

=============================================================================
