--------------------------- MODULE TraceCitation ---------------------------
EXTENDS CtsCitation, Trace, Integers
VARIABLES s, l, st     \* st.p: the pattern of the citation under edition; st.ch: the chain of levels

Read(p, o) ==
  Clause(o.refsDecl = Pattern(p), "numbered pattern", Pattern(p))
  \o Clause(o.scope = Scope(p), "scope", Scope(p))
  \o Clause(o.xpath = XPath(p), "xpath", XPath(p))
  \o Clause(o.attribute = Attribute(p), "reference attribute", Attribute(p))
  \o Clause(o.isset, "set", TRUE)

\* levels i of the chain as observed: names reachable, sizes, root, indices, matches
Chain(ch, o) ==
  LET n == Len(ch) IN
  Clause(Len(o) = n, "levels", n)
  \o (IF Len(o) # n THEN <<>> ELSE
     Clause(\A i \in 1..n : o[i].names = NamesFrom(ch, i), "iteration", NamesFrom(ch, 1))
     \o Clause(\A i \in 1..n : o[i].len = n - i + 1, "size", n)
     \o Clause(\A i \in 1..n : o[i].depth = n - i + 1, "depth", n)
     \o Clause(\A i \in 1..n : o[i].root = 1, "root", ch[1].name)
     \o Clause(\A i \in 1..n : o[i].isroot = (i = 1), "is root", TRUE)
     \o Clause(\A i \in 1..n : o[i].empty = (i = n), "has no deeper level", n)
     \o Clause(\A i \in 1..n : \A j \in DOMAIN o[i].idx : o[i].idx[j].r = Index(ch, i, o[i].idx[j].k), "index", n)
     \o Clause(\A i \in 1..n : \A d \in DOMAIN o[i].match : o[i].match[d] = Match(ch, d), "matching level", n)
     \o Clause(\A i \in 1..n : \A d \in DOMAIN o[i].ranges : LET q == o[i].ranges[d] IN q[3] = Match(ch, IF q[1] < q[2] THEN q[1] ELSE q[2]), "level matching a range", n)
     \o Clause(\A i \in 1..n : o[i].child = (IF i = n THEN 0 ELSE i + 1), "child", n)
     \o Clause(\A i \in 1..n : o[i].refsDecl = Pattern(ch[i].pat), "pattern of each level", [i \in 1..n |-> Pattern(ch[i].pat)])
     )

Verdict(sc, x, e) ==
  CASE e.op \in {"make", "remake"} -> Read(IF e.op = "make" THEN e.p ELSE x.p, e.obs)
    [] e.op = "scope" -> Read(SetScope(x.p, e.q), e.obs)
    [] e.op = "xpath" -> Read(SetXPath(x.p, e.q), e.obs)
    [] e.op = "refsDecl" -> Read(e.q, e.obs)
    [] e.op = "fill" -> Clause(e.res = Fill(x.p, e.vals), "filled pattern", Fill(x.p, e.vals))
    [] e.op = "fillnone" -> Clause(e.res = Fill(x.p, Blanks(Count(x.p))), "bare pattern", Fill(x.p, Blanks(Count(x.p))))
    [] e.op = "fillx" -> Clause(e.res = FillX(x.p, e.val), "filled xpath", FillX(x.p, e.val))
    [] e.op = "chain" -> Chain(e.ch, e.obs)
    \* export then parse: same levels, names (absent name = empty label) and patterns; double quotes may become single
    [] e.op = "roundtrip" ->
        LET ch == x.ch IN
        Clause(Len(e.names) = Len(ch), "levels after round trip", Len(ch))
        \o Clause(e.names = [i \in DOMAIN ch |-> IF ch[i].name = <<>> THEN <<"">> ELSE ch[i].name], "names after round trip", ch)
        \o Clause(Len(e.pats) = Len(ch) /\ \A i \in DOMAIN ch : e.pats[i] = Singled(Pattern(ch[i].pat)),
                  "patterns after round trip", [i \in DOMAIN ch |-> Singled(Pattern(ch[i].pat))])
        \o Clause(e.again, "second export is the same text", TRUE)
        \o Clause(e.rootok, "levels share the root", TRUE)
    [] OTHER -> <<<<"unknown event", e.op>>>>

Step(x, e) ==
  CASE e.op = "make" -> [x EXCEPT !.p = e.p]
    [] e.op = "scope" -> [x EXCEPT !.p = SetScope(x.p, e.q)]
    [] e.op = "xpath" -> [x EXCEPT !.p = SetXPath(x.p, e.q)]
    [] e.op = "refsDecl" -> [x EXCEPT !.p = e.q]
    [] e.op = "chain" -> [x EXCEPT !.ch = e.ch]
    [] OTHER -> x

Init == s \in 1..Len(Scen) /\ l = 1 /\ st = [p |-> <<>>, ch |-> <<>>]
Next == /\ l <= Len(Scen[s].ev)
        /\ LET e == Scen[s].ev[l]
               v == Verdict(Scen[s], st, e)
           IN IF v # <<>> THEN Fail(Scen[s], l, v) ELSE st' = Step(st, e)
        /\ l' = l + 1 /\ s' = s
Spec == Init /\ [][Next]_<<s, l, st>>
=============================================================================
