------------------------------ MODULE TraceText ------------------------------
(* One scenario = one text; events are calls on the text and on passages taken from it.
   Abstract state: T the tree, sch the scheme, tab the units, cur the reference of the passage in hand, urn.   *)
EXTENDS TextVerdicts
VARIABLES s, l, st

\* destination of a move from the passage in hand: <<>> when there is none
Dest(x, mv) ==
  LET r == x.cur[1]
      kids == IF Len(r.a.parts) = Len(x.sch) THEN <<>> ELSE Refs(x, <<r>>, Len(r.a.parts) + 1)
      sib == Sibling(x.tab, r)
      t == CASE mv = "next" -> sib.next [] mv = "prev" -> sib.prev
             [] mv = "first" -> IF kids = <<>> THEN <<>> ELSE <<kids[1]>>
             [] mv = "last" -> IF kids = <<>> THEN <<>> ELSE <<kids[Len(kids)]>>
             [] OTHER -> <<>>
  IN ORef(t)

LeafRefs(x, r) ==
  LET n == Len(x.sch) IN
  IF r = <<>> THEN x.tab[n] ELSE
  SelectSeq(x.tab[n], LAMBDA u : u.node \in A(x, r[1])..Last(x.T, Z(x, r[1])))

\* a passage carries the URN of its reference and its depth
KnowsItself(x, r, o) == (x.urn = "" \/ o.urn = x.urn \o ":" \o o.ref) /\ o.depth = Len(r.a.parts)

ExportOK(x, e) ==
  LET r == ORef(e.ref)
      treeok(o) == IF r = <<>> THEN o = x.T
                   ELSE IF e.simple THEN o = Sub(x.T, A(x, r[1])) ELSE PassageOK(x.T, A(x, r[1]), Z(x, r[1]), o)
      excl == RangeOf(e.excl)
      leaves == LeafRefs(x, r)
      want == [i \in DOMAIN leaves |-> [p |-> leaves[i].parts, t |-> Plain(Sub(x.T, leaves[i].node), excl, " ")]]
  IN Clause(treeok(e.etree), "lxml export", "tree of the passage")
     \o Clause(e.xml = e.etree /\ e.tei = e.etree /\ e.str = e.etree /\ e.tostr = e.etree, "XML export reads back as the same tree", e.etree)
     \o Clause(e.plain = Plain(e.etree, excl, e.glue), "plain text", Plain(e.etree, excl, e.glue))
     \o Clause(e.text = Plain(e.etree, {}, e.glue), "text", Plain(e.etree, {}, e.glue))
     \o Clause(e.dflt = e.plain, "default export is plain text", e.plain)
     \o (IF leaves = <<>> THEN Clause(IsX(e.nested) \/ e.nested.v = <<>>, "nested dictionary", <<>>)
          ELSE Clause(IsV(e.nested, want), "nested dictionary", want))

Verdict(sc, x, e) ==
  CASE e.op = "load" -> Clause(e.tree = sc.doc, "tree as loaded", sc.doc)
                        \o Clause(e.depth = Len(sc.sch), "depth of the scheme", Len(sc.sch))
    [] e.op = "reffs" -> ReffsOK(x, ORef(e.ref), e.lv, e.obs)
    \* every level, concatenated
    [] e.op = "allreffs" -> LET w == ConcatAll([k \in DOMAIN x.tab |-> RefsOf(x.tab[k])]) IN Clause(e.refs = w, "references of every level", w)
    [] e.op = "passage" -> PassOK(x, Ref(e.ref), e.simple, e.obs)
    [] e.op = "nav" -> IF ~Known(x.tab, Ref(e.ref)) THEN <<>> ELSE NavOK(x, Ref(e.ref), e.obs)
    [] e.op = "textnav" -> LET us == RefsOf(x.tab[1]) IN
           Clause(e.ids = us /\ e.first = <<us[1]>> /\ e.last = <<us[Len(us)]>>, "children of the text", us)
    [] e.op = "goto" -> PassOK(x, Ref(e.ref), FALSE, e.obs)
    [] e.op = "move" ->
          IF x.cur = <<>> THEN <<>>
          ELSE LET d == Dest(x, e.mv) IN
          IF d = <<>> THEN Clause(e.obs.v = <<>> \/ (IsX(e.obs) /\ e.mv \in {"first", "last"} /\ Len(x.cur[1].a.parts) < Len(x.sch)),
                                  "no passage there", <<>>)
          ELSE Clause(e.obs.k = "v" /\ e.obs.v # <<>>, "passage reached", PrintRef(d[1]))
               \o (IF e.obs.k # "v" \/ e.obs.v = <<>> THEN <<>>
                   ELSE Clause(SameRef(<<e.obs.v[1].ref>>, <<PrintRef(d[1])>>), "passage reached", PrintRef(d[1]))
                        \o Clause(KnowsItself(x, d[1], e.obs.v[1]), "URN and depth of the passage reached", PrintRef(d[1]))
                        \o Clause(PassageOK(x.T, A(x, d[1]), Z(x, d[1]), e.obs.v[1].tree), "content of the passage reached", PrintRef(d[1])))
    [] e.op = "kids" ->
          IF x.cur = <<>> THEN <<>> ELSE
          LET r == x.cur[1]
              ks == IF Len(r.a.parts) = Len(x.sch) THEN <<>> ELSE Refs(x, x.cur, Len(r.a.parts) + 1)
          IN IF ks = <<>> THEN <<>> ELSE
             Clause(e.obs.k = "v" /\ Len(e.obs.v) = Len(ks) /\ \A i \in DOMAIN ks : Canon(e.obs.v[i].ref) = ks[i] /\ LET q == Ref(ks[i]) IN KnowsItself(x, q, e.obs.v[i]) /\ PassageOK(x.T, A(x, q), A(x, q), e.obs.v[i].tree),
                    "children passages", ks)
    [] e.op = "export" -> ExportOK(x, e)
    [] e.op = "source" -> Clause(e.tree = x.T, "the source text is unchanged", x.T)
    [] OTHER -> <<<<"unknown event", e.op>>>>

Step(sc, x, e) ==
  CASE e.op = "load" -> [x EXCEPT !.T = sc.doc, !.sch = sc.sch, !.tab = Table(sc.doc, sc.sch), !.urn = sc.urn]
    [] e.op = "goto" -> [x EXCEPT !.cur = <<Ref(e.ref)>>]
    [] e.op = "move" /\ x.cur # <<>> -> LET d == Dest(x, e.mv) IN IF d = <<>> THEN x ELSE [x EXCEPT !.cur = d]
    [] OTHER -> x

Init == s \in 1..Len(Scen) /\ l = 1 /\ st = [T |-> <<>>, sch |-> <<>>, tab |-> <<>>, cur |-> <<>>, urn |-> ""]
Next == /\ l <= Len(Scen[s].ev)
        /\ LET e == Scen[s].ev[l]
               v == Verdict(Scen[s], st, e)
           IN IF v # <<>> THEN Fail(Scen[s], l, v) ELSE st' = Step(Scen[s], st, e)
        /\ l' = l + 1 /\ s' = s
Spec == Init /\ [][Next]_<<s, l, st>>
=============================================================================
