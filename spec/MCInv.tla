------------------------------- MODULE MCInv -------------------------------
(* Every small inventory: one textgroup with any subset of two works, texts, labels, languages, links,
   citations, structured metadata.  Exported and read back in both formats, whole and per object.       *)
EXTENDS Inventory, TLC, Json
CONSTANTS Rich
VARIABLE R
T0 == "urn:cts:a:t"
W(i) == T0 \o "." \o i
Lb(s, l) == Lit(s, <<l>>, <<>>)
Props(cls, p, vs) == {St(CTS \o p, v) : v \in vs} \cup (IF TitleOf[cls] = p THEN UNION {{St(RDFS \o "label", v), St(SKOS \o "prefLabel", v)} : v \in vs} ELSE {})
LabelSets == IF Rich THEN {{}, {Lb("A", "eng")}, {Lb("A", "eng"), Lb("", "fre")}} ELSE {{}, {Lb("A", "eng"), Lb("B", "fre")}}
MetaSets == {{}, {St("http://example.org/ns#note", Lit("x", <<>>, <<>>)), St(DC \o "source", Uri("urn:x"))},
             {St(DC \o "date", Lit("12", <<>>, <<XSD \o "integer">>)), St(DC \o "date", Lit("x", <<"eng">>, <<>>))}}
Cits == {<<>>, <<[name |-> <<"l">>, scope |-> <<"/a">>, xpath |-> <<"/b">>], [name |-> <<"m">>, scope |-> <<"/c">>, xpath |-> <<"/d">>]>>}
Lg(l) == {St(DC \o "language", Lit(l, <<>>, <<>>))}
TextRecs(w, cls, lang) == {[id |-> w \o "." \o cls, cls |-> cls, par |-> w, cit |-> c,
     st |-> Props(cls, "label", ls) \cup Props(cls, "description", ds) \cup Lg(lang) \cup ab \cup ms] :
       c \in Cits, ls \in LabelSets, ds \in {{}, {Lb("D", "eng")}}, ms \in MetaSets, ab \in IF cls = "co" THEN {{St(CTS \o "about", Uri("urn:cts:a:t.w"))}} ELSE {{}}}
WorkRec(w, ls, ms) == [id |-> w, cls |-> "wk", par |-> T0, cit |-> <<>>, st |-> Props("wk", "title", ls) \cup Lg("lat") \cup ms]
GroupRec(ls, ms) == [id |-> T0, cls |-> "tg", par |-> "inv", cit |-> <<>>, st |-> Props("tg", "groupname", ls) \cup ms]
InvRec == [id |-> "inv", cls |-> "inv", par |-> "", cit |-> <<>>, st |-> {}]
OptTexts(w, cls, lang) == {<<>>} \cup {<<x>> : x \in TextRecs(w, cls, lang)}
One(w, cls, lang) == {x \in TextRecs(w, cls, lang) : x.cit # <<>>}
\* two steps, so that the completions are examined in parallel
Pick(S) == IF Rich THEN S ELSE {x \in S : x = <<>> \/ x[1].cit # <<>>}
Init == \/ \E ls \in LabelSets, ms \in MetaSets, wl \in LabelSets, wm \in MetaSets : R = <<InvRec, GroupRec(ls, ms), WorkRec(W("w"), wl, wm)>>
        \/ \E e \in TextRecs(W("w"), "ed", "lat") : R = <<InvRec, GroupRec({}, {}), WorkRec(W("w"), {Lb("A", "eng")}, {}), e>>
        \/ \E e \in OptTexts(W("w"), "ed", "lat") : R = <<InvRec, GroupRec({}, {}), WorkRec(W("w"), {}, {})>> \o e \o <<WorkRec(W("v"), {}, {})>>
Next == \/ Len(R) = 3 /\ \E e \in TextRecs(W("w"), "ed", "lat") : R' = Append(R, e)
        \/ Len(R) = 4 /\ R[4].cls = "ed" /\ R[2].st = {} /\ R[3].st = WorkRec(W("w"), {Lb("A", "eng")}, {}).st
           /\ \E t \in Pick(OptTexts(W("w"), "tr", "eng")), c \in Pick(OptTexts(W("w"), "co", "lat")) : t # <<>> /\ R' = R \o t \o c
        \/ Len(R) \in {4, 5} /\ R[Len(R)].id = W("v") /\ \E t \in One(W("v"), "tr", "eng") : R' = Append(R, t)
Spec == Init /\ [][Next]_R
Back(id, cap) == Read(Export(R, id, cap), Rec(R, id).cls) = Carried(R, id, cap)
RoundTrip == \A i \in DOMAIN R : \A cap \in BOOLEAN : Back(R[i].id, cap)
\* reading an export and exporting again changes nothing more
Stable == \A cap \in BOOLEAN : LET q == Parse(Export(R, "inv", cap), "inv", "", <<>>) IN Read(Export(q, "inv", cap), "inv") = RangeOf(q)
Emit == IF (Len(R) = 6 /\ R[4].st # {} /\ R[5].cit # <<>> /\ \E y \in R[5].st : y.k = DC \o "date") \/ (Len(R) = 4 /\ Cardinality(R[2].st) > 2) THEN PrintT("SCN " \o ToJson(R)) ELSE TRUE
=============================================================================
