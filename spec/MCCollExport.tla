---------------------------- MODULE MCCollExport ----------------------------
(* Histories of Depth changes of a collection with one member, then export and reading.                          *)
EXTENDS CollExport, TLC, Json
CONSTANTS Depth
VARIABLES G, objs, hist
A == "urn:a"  B == "urn:b"
Ks == {DCT \o "title", DC \o "title", RDFS \o "comment", Lb, "http://example.org/ns#note"}
Vs == {Lit("X", <<>>, <<>>), Lit("X", <<"en">>, <<>>), Uri(B), Int("7")}
Ops == {[op |-> "add", n |-> n, k |-> k, v |-> v] : n \in {A, B}, k \in Ks, v \in Vs}
  \cup {[op |-> "rem", n |-> A, k |-> k] : k \in Ks}
  \cup {[op |-> "label", n |-> n, t |-> "L", lang |-> l] : n \in {A, B}, l \in {<<>>, <<"la">>}}
  \cup {[op |-> "type", n |-> n, t |-> t] : n \in {A, B}, t \in {DTS \o "collection", HYDRA \o "Resource", CTS \o "work"}}
Do(o) == CASE o.op = "add" -> G \cup {St(o.n, o.k, o.v)}
           [] o.op = "rem" -> {x \in G : ~(x.n = o.n /\ x.k = o.k)}
           [] o.op = "label" -> LabelS(G, o.n, o.t, o.lang)
           [] o.op = "type" -> PutS(G, o.n, Ty, Uri(o.t))
Init == /\ hist = <<>>
        /\ G = NewColl(NewColl({}, A, DTS \o "collection", "collection", <<>>, <<>>), B, DTS \o "collection", "collection", <<A>>, <<>>)
        /\ objs = <<[id |-> A, dts |-> FALSE, kids |-> <<B>>, cite |-> <<>>, depth |-> <<>>], [id |-> B, dts |-> FALSE, kids |-> <<>>, cite |-> <<>>, depth |-> <<>>]>>
Next == Len(hist) < Depth /\ \E o \in Ops : G' = Do(o) /\ hist' = Append(hist, o) /\ UNCHANGED objs
Spec == Init /\ [][Next]_<<G, objs, hist>>
R == Export(G, objs, A)
R2 == Export(ReadG(R), ReadObjs(R), A)
R3 == Export(ReadG(R2), ReadObjs(R2), A)
\* every statement is in one place: the two parts of metadata, or the record's own terms
Places == LET own == KV({x \in G : x.n = A}) IN
   /\ DcPart(G, A) \cap ExtPart(G, A) = {}
   /\ \A x \in own : (x \in DcPart(G, A)) # (x \in ExtPart(G, A) \/ In(x.k, Reserved))
   /\ DcPart(G, A) \cup ExtPart(G, A) \subseteq own
\* reading an export loses nothing of the metadata, and only adds the title as a label
RoundTrip == /\ R2.dc = R.dc /\ R.ext \subseteq R2.ext /\ R2.ext \ R.ext \subseteq {[k |-> Pf, v |-> Lit(R.title, <<>>, <<>>)]}
             /\ R2.type = R.type /\ R2.title = R.title /\ R2.total = R.total /\ R2.kids = R.kids
Stable == R3 = R2
SummaryOK == Summary(G, Obj(objs, A), R) /\ Summary(G, Obj(objs, B), R.kids[1])
AboutIn == About(G, A) \subseteq G /\ St(B, Par, Uri(A)) \in About(G, A)
Emit == (Len(hist) = Depth) => PrintT("SCN " \o ToJson(hist))
=============================================================================
