------------------------------ MODULE TraceMeta ------------------------------
(* st.G: the statements expected in the graph ; st.cls: class of each collection node.                       *)
EXTENDS Meta, Trace
VARIABLES s, l, st
OptIn(o, S) == IF S = {} THEN o = <<>> ELSE Len(o) = 1 /\ o[1] \in S
SetEq(q, S) == Len(q) = Cardinality(S) /\ RangeOf(q) = S
Blank(v) == IF v.t = "bn" THEN Bn("") ELSE v
Count(q, x) == Cardinality({i \in DOMAIN q : q[i] = x})
Cls(x, n) == x.cls[CHOOSE i \in DOMAIN x.cls : x.cls[i].n = n /\ \A j \in DOMAIN x.cls : j > i => x.cls[j].n # n].c

After(x, e) ==
  CASE e.op = "add" -> Add(x.G, e.n, e.k, ToValue(e.v, e.lang))
    [] e.op = "set" -> Put(x.G, e.n, e.k, ToValue(e.v, e.lang))
    [] e.op = "remove" -> Remove(x.G, e.n, e.k, IF e.v = <<>> THEN <<>> ELSE <<ToValue(e.v[1], <<>>)>>)
    [] e.op = "unlink" -> Unlink(x.G, e.n, e.s, e.k)
    [] e.op = "text" -> Add(x.G, e.n, K(DTS, "implements"), Uri(e.id))
    [] e.op = "coll" -> Typed(x.G, e.n, e.cls)
    [] e.op = "label" -> SetLabel(x.G, e.n, e.v.s, e.lang)
    [] e.op = "prop" -> SetProp(x.G, e.n, Cls(x, e.n), e.prop, e.v, e.lang)
    [] e.op = "link" -> Add(x.G, e.n, e.k, Uri(e.v.s))
    \* setters replacing the statement
    [] e.op = "put" -> Put(x.G, e.n, e.k, IF e.as = "uri" THEN Uri(e.v.s) ELSE Lit(e.v.s, <<>>, <<>>))
    [] OTHER -> x.G

\* exports of the selection
ExpOK(x, e) ==
  LET sel == Select(x.G, e.n, e.only, e.excl)
      lits == {y \in sel : y.v.t = "lit"}
      \* e.tc: pairs <text, title-cased text>; the export title-cases (known finding), texts are compared modulo that
      tc(t) == IF \E i \in DOMAIN e.tc : e.tc[i][1] = t THEN e.tc[CHOOSE i \in DOMAIN e.tc : e.tc[i][1] = t][2] ELSE t
      j == {[k |-> Term(y.k), lang |-> y.v.lang, s |-> tc(y.v.s)] : y \in lits}
      bag(z) == Cardinality({y \in lits : Term(y.k) = z.k /\ y.v.lang = z.lang /\ tc(y.v.s) = z.s})
      ts == {[k |-> Term(y.k), v |-> Blank(y.v)] : y \in sel}
  IN CASE e.fmt = "json" -> LET r == [i \in DOMAIN e.res |-> [k |-> e.res[i].k, lang |-> e.res[i].lang, s |-> tc(e.res[i].s)]] IN
              Clause(RangeOf(r) = j /\ \A z \in j : Count(r, z) = bag(z), "JSON export", j)
       [] e.fmt \in {"rdf", "ld"} -> Clause(RangeOf(e.res) = ts, "RDF export read back", ts)
       [] OTHER -> Clause(RangeOf(e.res) = ts /\ Len(e.res) = Cardinality(sel), "CapiTainS XML export read back", ts)

Verdict(sc, x, e) ==
  CASE e.op = "dump" ->
        LET w == {[n |-> y.n, k |-> Term(y.k), v |-> y.v] : y \in x.G}
        IN Clause(RangeOf(e.G) = w, "statements in the graph", [missing |-> w \ RangeOf(e.G), extra |-> RangeOf(e.G) \ w])
    [] e.op = "get" -> Clause(SetEq(e.res, IF e.lang = <<>> THEN Vals(x.G, e.n, e.k) ELSE ByLang(x.G, e.n, e.k, e.lang)), "values", Vals(x.G, e.n, e.k))
    [] e.op = "single" -> Clause(OptIn(e.res, SingleSet(x.G, e.n, e.k, e.lang)), "one value", SingleSet(x.G, e.n, e.k, e.lang))
    \* title of a text: simple or qualified Dublin Core
    [] e.op = "title2" -> LET a == SingleSet(x.G, e.n, K(DC, "title"), e.lang) IN
                          IF \E v \in a : v.s = "" THEN <<>> ELSE Clause(OptIn(e.res, IF a = {} THEN SingleSet(x.G, e.n, K(DCT, "title"), e.lang) ELSE a), "title", a)
    [] e.op = "getprop" -> LET vs == Vals(x.G, e.n, K(CTS, e.prop)) IN
          Clause(RangeOf(e.res) \subseteq vs /\ {v.lang : v \in RangeOf(e.res)} = {v.lang : v \in vs} /\ Len(e.res) = Cardinality({v.lang : v \in vs}), "values by language", vs)
    [] e.op = "getprop1" -> LET S == SingleSet(x.G, e.n, K(CTS, e.prop), e.lang) IN
                            IF S = {} THEN <<>> ELSE Clause(e.res.k = "v" /\ e.res.v \in S, "property in a language", S)
    \* attributes holding one statement
    [] e.op = "attr" -> LET vs == Vals(x.G, e.n, e.k) IN IF vs = {} THEN <<>> ELSE Clause(\E v \in vs : e.res = v.s, "attribute", vs)
    \* getOr: the node already connected, or a new one
    [] e.op = "getor" -> LET vs == Vals(x.G, e.n, e.k) IN
          Clause(IF vs = {} THEN e.fresh ELSE ~e.fresh /\ \E v \in vs : v.s = e.res, "connected metadata", vs)
    [] e.op = "export" -> ExpOK(x, e) \o Clause(e.kept, "arguments are left alone", e.only)
    [] e.op \in {"add", "set", "remove", "unlink", "coll", "text", "label", "prop", "link", "put"} -> <<>>
    [] OTHER -> <<<<"unknown event", e.op>>>>

Step(x, e) ==
  [x EXCEPT !.G = After(x, e), !.cls = IF e.op = "coll" THEN Append(@, [n |-> e.n, c |-> e.cls]) ELSE @]
Init == s \in 1..Len(Scen) /\ l = 1 /\ st = [G |-> {}, cls |-> <<>>]
Next == /\ l <= Len(Scen[s].ev)
        /\ LET e == Scen[s].ev[l]
               v == Verdict(Scen[s], st, e)
           IN IF v # <<>> THEN Fail(Scen[s], l, v) ELSE st' = Step(st, e)
        /\ l' = l + 1 /\ s' = s
Spec == Init /\ [][Next]_<<s, l, st>>
=============================================================================
