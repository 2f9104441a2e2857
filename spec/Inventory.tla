----------------------------- MODULE Inventory -----------------------------
(* CTS inventories as records and as XML documents.
   Record: [id, cls, par, st, cit]; st is the set of statements [k, v] about the object (DTS and RDF ones
   apart, which cls and par stand for); cit the citation scheme <<[name, scope, xpath]...>>.
   Element: [ns, tag, at, tx, kids], at a sequence of [k, v] ("lang" is xml:lang, "dt" an expanded rdf:datatype). *)
EXTENDS Meta
TI == "http://chs.harvard.edu/xmlns/cts"
CPT == CAP
TagOf == [inv |-> "TextInventory", tg |-> "textgroup", wk |-> "work", ed |-> "edition", tr |-> "translation", co |-> "commentary"]
TitleOf == [inv |-> "name", tg |-> "groupname", wk |-> "title", ed |-> "label", tr |-> "label", co |-> "label"]
PropsOf == [inv |-> {}, tg |-> {"groupname"}, wk |-> {"title"}, ed |-> {"label", "description"}, tr |-> {"label", "description"}, co |-> {"label", "description"}]
KidCls == [inv |-> {"tg"}, tg |-> {"wk"}, wk |-> {"ed", "tr", "co"}, ed |-> {}, tr |-> {}, co |-> {}]
Texts == {"ed", "tr", "co"}

Att(e, k) == LET q == SelectSeq(e.at, LAMBDA a : a.k = k) IN IF q = <<>> THEN <<>> ELSE <<q[1].v>>
KidsOf(e, ns, tag) == SelectSeq(e.kids, LAMBDA x : x.ns = ns /\ x.tag = tag)
RECURSIVE Deep(_, _, _)
Deep(e, ns, tag) == ConcatAll([i \in DOMAIN e.kids |-> (IF e.kids[i].ns = ns /\ e.kids[i].tag = tag THEN <<e.kids[i]>> ELSE <<>>) \o Deep(e.kids[i], ns, tag)])
St(k, v) == [k |-> k, v |-> v]

\* --- statements carried by the CTS part of an element
PropSt(e, cls) ==
  LET ps == {<<p, i>> : p \in PropsOf[cls], i \in DOMAIN e.kids}
      ok == {x \in ps : e.kids[x[2]].ns = TI /\ e.kids[x[2]].tag = x[1] /\ Att(e.kids[x[2]], "lang") # <<>>}
      val(x) == Lit(e.kids[x[2]].tx, Att(e.kids[x[2]], "lang"), <<>>)
  IN {St(CTS \o x[1], val(x)) : x \in ok} \cup
     UNION {{St(RDFS \o "label", val(x)), St(SKOS \o "prefLabel", val(x))} : x \in {y \in ok : y[1] = TitleOf[cls]}}
\* language: a work's is its own, an edition's its work's, a translation's or commentary's its own or the work's
LangOf(e, cls, plang) == CASE cls = "wk" -> Att(e, "lang") [] cls = "ed" -> plang
                           [] cls \in {"tr", "co"} -> IF Att(e, "lang") # <<>> THEN Att(e, "lang") ELSE plang [] OTHER -> <<>>
LangSt(l) == IF l = <<>> THEN {} ELSE {St(DC \o "language", Lit(l[1], <<>>, <<>>))}
AboutSt(e, cls) == IF cls \notin Texts THEN {} ELSE {St(CTS \o "about", Uri(Att(x, "urn")[1])) : x \in RangeOf(KidsOf(e, TI, "about"))}
\* --- structured metadata
\* text which is a number is a number
IsInt(t) == t # "" /\ t # "-" /\ LET u == IF Ch(t, 1) = "-" THEN SubSeq(t, 2, Len(t)) ELSE t IN
   (\A i \in 1..Len(u) : Ch(u, i) \in RangeOf(Digits)) /\ (Ch(u, 1) # "0" \/ t = "0")
MetaVal(x) == LET t == x.tx IN
  CASE StartsWith(t, "urn:") \/ StartsWith(t, "http:") \/ StartsWith(t, "https:") \/ StartsWith(t, "hdl:") -> Uri(t)
    [] Att(x, "lang") # <<>> -> Lit(t, Att(x, "lang"), <<>>)
    [] Att(x, "dt") = <<>> /\ IsInt(t) -> Lit(t, <<>>, <<XSD \o "integer">>)
    [] Att(x, "dt") = <<>> /\ (LET q == Split(t, ".") IN Len(q) = 2 /\ IsInt(q[1]) /\ IsInt("1" \o q[2]) /\ q[2] # "") -> Lit(t, <<>>, <<XSD \o "float">>)
    [] OTHER -> Lit(t, <<>>, Att(x, "dt"))
MetaSt(e) == LET q == KidsOf(e, CPT, "structured-metadata") IN
  \* (cpt:parent repeats the place in the tree, which par stands for)
  {St(x.ns \o x.tag, MetaVal(x)) : x \in {y \in RangeOf(ConcatAll([i \in DOMAIN q |-> q[i].kids])) : y.ns # CPT \/ y.tag # "parent"}}
\* --- citation scheme: nested first citations
\* (the quotes around a placeholder are not significant: exports write single ones)
Quo(o) == IF o = <<>> THEN o ELSE <<Replace(o[1], "\"", "'")>>
RECURSIVE CitSeq(_)
CitSeq(e) == LET q == KidsOf(e, TI, "citation") IN
  IF q = <<>> THEN <<>> ELSE <<[name |-> Att(q[1], "label"), scope |-> Quo(Att(q[1], "scope")), xpath |-> Quo(Att(q[1], "xpath"))]>> \o CitSeq(q[1])
CitOf(e) == LET q == KidsOf(e, TI, "online") IN
  IF \E i \in DOMAIN q : \E j \in DOMAIN q[i].kids : q[i].kids[j].tag = "citationMapping" /\ CitSeq(q[i].kids[j]) # <<>>
  THEN LET m == ConcatAll([i \in DOMAIN q |-> KidsOf(q[i], TI, "citationMapping")])
           c == SelectSeq(m, LAMBDA x : CitSeq(x) # <<>>) IN CitSeq(c[1])
  ELSE <<>>

RECURSIVE Parse(_, _, _, _)
Parse(e, cls, par, plang) ==
  LET id == Att(e, IF cls = "inv" THEN "tiid" ELSE "urn")
      lang == LangOf(e, cls, plang)
      me == [id |-> IF id = <<>> THEN "" ELSE id[1], cls |-> cls, par |-> par, st |-> PropSt(e, cls) \cup LangSt(lang) \cup AboutSt(e, cls) \cup (IF cls = "inv" THEN {} ELSE MetaSt(e)),
             cit |-> IF cls \in Texts THEN CitOf(e) ELSE <<>>]
      kids(c) == IF cls = "inv" THEN Deep(e, TI, TagOf[c]) ELSE KidsOf(e, TI, TagOf[c])
      sub(c) == LET q == kids(c) IN ConcatAll([i \in DOMAIN q |-> Parse(q[i], c, me.id, lang)])
  IN <<me>> \o (IF cls = "inv" THEN sub("tg") ELSE IF cls = "tg" THEN sub("wk") ELSE IF cls = "wk" THEN sub("ed") \o sub("tr") \o sub("co") ELSE <<>>)

\* --- export of the object with identifier id and everything below
RECURSIVE SetSeq(_)
SetSeq(S) == IF S = {} THEN <<>> ELSE LET x == CHOOSE y \in S : TRUE IN <<x>> \o SetSeq(S \ {x})
El(ns, tag, at, tx, kids) == [ns |-> ns, tag |-> tag, at |-> at, tx |-> tx, kids |-> kids]
OptAt(k, o) == IF o = <<>> THEN <<>> ELSE <<[k |-> k, v |-> o[1]]>>
LangIn(r) == LET S == {y \in r.st : y.k = DC \o "language"} IN IF S = {} THEN <<>> ELSE <<(CHOOSE y \in S : TRUE).v.s>>
StartsNs(k, ns) == StartsWith(k, ns)
\* namespaces of a term: up to the last / or #
RECURSIVE LastSep(_, _)
LastSep(k, i) == IF i = 0 THEN 0 ELSE IF Ch(k, i) \in {"/", "#"} THEN i ELSE LastSep(k, i - 1)
TermEl(y) == LET i == LastSep(y.k, Len(y.k)) IN
  El(SubSeq(y.k, 1, i), SubSeq(y.k, i + 1, Len(y.k)), OptAt("lang", y.v.lang) \o OptAt("dt", y.v.dt), y.v.s, <<>>)
MetaEl(r) == El(CPT, "structured-metadata", <<>>, "", LET q == SetSeq({y \in r.st : ~StartsNs(y.k, CTS)}) IN [i \in DOMAIN q |-> TermEl(q[i])])
PropEls(r) == LET q == SetSeq({y \in r.st : \E p \in PropsOf[r.cls] : y.k = CTS \o p}) IN
  [i \in DOMAIN q |-> El(TI, SubSeq(q[i].k, Len(CTS) + 1, Len(q[i].k)), OptAt("lang", q[i].v.lang), q[i].v.s, <<>>)]
AboutEls(r) == LET q == SetSeq({y \in r.st : y.k = CTS \o "about"}) IN [i \in DOMAIN q |-> El(TI, "about", <<[k |-> "urn", v |-> q[i].v.s]>>, "", <<>>)]
RECURSIVE CitEl(_)
CitEl(q) == IF q = <<>> THEN <<>> ELSE <<El(TI, "citation", OptAt("label", q[1].name) \o OptAt("scope", q[1].scope) \o OptAt("xpath", q[1].xpath), "", CitEl(Tail(q)))>>
OnlineEls(r) == IF r.cit = <<>> THEN <<>> ELSE <<El(TI, "online", <<>>, "", <<El(TI, "citationMapping", <<>>, "", CitEl(r.cit))>>)>>
Rec(R, id) == R[CHOOSE i \in DOMAIN R : R[i].id = id]
RECURSIVE Export(_, _, _)
Export(R, id, cap) ==
  LET r == Rec(R, id)
      ks == SelectSeq(R, LAMBDA x : x.par = id /\ x.cls \in KidCls[r.cls])
      at == IF r.cls = "inv" THEN (IF id = "" THEN <<>> ELSE <<[k |-> "tiid", v |-> id]>>) ELSE <<[k |-> "urn", v |-> id]>> \o OptAt("lang", LangIn(r)) \o
            (IF r.par = "" \/ r.cls = "tg" THEN <<>> ELSE <<[k |-> IF r.cls = "wk" THEN "groupUrn" ELSE "workUrn", v |-> r.par]>>)
  IN El(TI, TagOf[r.cls], at, "", PropEls(r) \o AboutEls(r) \o OnlineEls(r) \o (IF cap THEN <<MetaEl(r)>> ELSE <<>>)
                                  \o [i \in DOMAIN ks |-> Export(R, ks[i].id, cap)])

\* --- what an export carries: everything (CapiTainS) or what CTS has elements for
Core(r) == [r EXCEPT !.st = {y \in @ : StartsNs(y.k, CTS) \/ y.k = DC \o "language" \/
                              (y.k \in {RDFS \o "label", SKOS \o "prefLabel"} /\ \E z \in r.st : z.k = CTS \o TitleOf[r.cls] /\ z.v = y.v)}]
RECURSIVE Sub(_, _, _)
Sub(R, id, par) == LET ks == SelectSeq(R, LAMBDA x : x.par = id /\ x.cls \in KidCls[Rec(R, id).cls]) IN
  <<[Rec(R, id) EXCEPT !.par = par]>> \o ConcatAll([i \in DOMAIN ks |-> Sub(R, ks[i].id, id)])
\* read on its own, an edition does not know the language of its work
Alone(q, cap) == IF q[1].cls = "ed" /\ ~cap THEN <<[q[1] EXCEPT !.st = {y \in @ : y.k # DC \o "language"}]>> ELSE q
Carried(R, id, cap) == LET q == Sub(R, id, "") IN RangeOf(Alone([i \in DOMAIN q |-> IF cap THEN q[i] ELSE Core(q[i])], cap))
Read(e, cls) == RangeOf(Parse(e, cls, "", <<>>))
=============================================================================
