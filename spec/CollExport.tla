----------------------------- MODULE CollExport -----------------------------
(* Exports of collections and what comes back when they are read.
   State: G, the statements [n, k, v] (k a full name) of one graph; objs, the collections
     [id, dts (read from a DTS document), cls, kids, cite, depth]; last: the DTS record exported last, and of whom.
   A DTS record: [id, type, title, total, desc, dc, ext, kids, cite, depth] with kids [id, type, title, total, desc]. *)
EXTENDS Meta
HYDRA == "https://www.w3.org/ns/hydra/core#"
Ty == RDFNS \o "type"
Lb == RDFS \o "label"
Pf == SKOS \o "prefLabel"
Md == DTS \o "model"
Par == CAP \o "parent"
Ti == HYDRA \o "totalItems"
De == HYDRA \o "description"
Tag == "http://example.org/ns#tag"
Int(s) == Lit(s, <<>>, <<XSD \o "integer">>)
St(n, k, v) == [n |-> n, k |-> k, v |-> v]
Of(G, n, k) == {x.v : x \in {y \in G : y.n = n /\ y.k = k}}
In(k, S) == \E p \in S : StartsWith(k, p)
Reserved == {CAP, HYDRA, RDFNS, RDFS, DTS}          \* said by the record itself or by its structure
KV(S) == {[k |-> x.k, v |-> x.v] : x \in {y \in S : y.v.t # "bn"}}      \* a record names what it links to
DcPart(G, n) == KV({x \in G : x.n = n /\ In(x.k, {DCT})})
ExtPart(G, n) == KV({x \in G : x.n = n /\ ~In(x.k, Reserved \cup {DCT})})
Labels(G, n) == {v.s : v \in Of(G, n, Lb)}
Obj(objs, id) == objs[CHOOSE i \in DOMAIN objs : objs[i].id = id]
Size(G, o) == IF o.dts THEN (IF Of(G, o.id, Ti) = {} THEN {"0"} ELSE {v.s : v \in Of(G, o.id, Ti)}) ELSE {NatStr(Len(o.kids))}
RECURSIVE DepthOf(_)
DepthOf(q) == IF q = <<>> THEN 0 ELSE MaxOf({1 + DepthOf(q[i].kids) : i \in DOMAIN q})
Depth_(o) == IF o.depth # <<>> THEN o.depth ELSE IF o.cite = <<>> THEN <<>> ELSE <<NatStr(DepthOf(o.cite))>>

\* --- the DTS export: m is an acceptable summary of o
Summary(G, o, m) ==
  /\ m.id = o.id /\ {m.type} = {v.s : v \in Of(G, o.id, Ty)}
  /\ IF Labels(G, o.id) = {} THEN m.title # "None" ELSE m.title \in Labels(G, o.id)
  /\ m.total \in Size(G, o)
  /\ IF Of(G, o.id, De) = {} THEN m.desc = <<>> ELSE Len(m.desc) = 1 /\ m.desc[1] \in {v.s : v \in Of(G, o.id, De)}
\* one acceptable record (for the design)
OneSummary(G, o) == [id |-> o.id, type |-> (CHOOSE v \in Of(G, o.id, Ty) : TRUE).s,
   title |-> IF Labels(G, o.id) = {} THEN o.id ELSE CHOOSE t \in Labels(G, o.id) : TRUE,
   total |-> CHOOSE t \in Size(G, o) : TRUE, desc |-> IF Of(G, o.id, De) = {} THEN <<>> ELSE <<(CHOOSE v \in Of(G, o.id, De) : TRUE).s>>]
Export(G, objs, id) == LET o == Obj(objs, id)  s == OneSummary(G, o) IN
  [id |-> s.id, type |-> s.type, title |-> s.title, total |-> s.total, desc |-> s.desc, dc |-> DcPart(G, id), ext |-> ExtPart(G, id),
   kids |-> [i \in DOMAIN o.kids |-> OneSummary(G, Obj(objs, o.kids[i]))], cite |-> o.cite, depth |-> Depth_(o)]

\* --- RDF exports: everything said of the collection and the links to it, nothing which is not in the graph
About(G, n) == {x \in G : x.n = n \/ x.v = Uri(n) \/ (\E y \in G : y.n = n /\ y.v.t = "bn" /\ y.v.s = x.n)}

\* --- reading a DTS record in a new graph
ReadSum(m) == {St(m.id, Ty, Uri(m.type)), St(m.id, Md, Uri(DTS \o "collection")), St(m.id, Lb, Lit(m.title, <<>>, <<>>)), St(m.id, Pf, Lit(m.title, <<>>, <<>>)), St(m.id, Ti, Int(m.total))}
              \cup {St(m.id, De, Lit(m.desc[i], <<>>, <<>>)) : i \in DOMAIN m.desc}
ReadG(r) == ReadSum(r) \cup {St(r.id, x.k, x.v) : x \in r.dc \cup r.ext} \cup UNION {ReadSum(r.kids[i]) : i \in DOMAIN r.kids}
ReadObjs(r) == <<[id |-> r.id, dts |-> TRUE, kids |-> [i \in DOMAIN r.kids |-> r.kids[i].id], cite |-> r.cite, depth |-> r.depth]>>
               \o [i \in DOMAIN r.kids |-> [id |-> r.kids[i].id, dts |-> TRUE, kids |-> <<>>, cite |-> <<>>, depth |-> <<>>]]

\* --- changes
PutS(G, n, k, v) == {x \in G : ~(x.n = n /\ x.k = k)} \cup {St(n, k, v)}
NewColl(G, n, type, model, par, lang) == PutS(PutS(G, n, Ty, Uri(type)), n, Md, Uri(DTS \o model)) \cup {St(n, Par, Uri(par[i])) : i \in DOMAIN par} \cup {St(n, DC \o "language", Lit(lang[i], <<>>, <<>>)) : i \in DOMAIN lang}
LabelS(G, n, t, lang) == G \cup {St(n, Lb, Lit(t, lang, <<>>)), St(n, Pf, Lit(t, lang, <<>>))}
Gone(G, n) == {x \in G : x.n # n /\ x.v # Uri(n)}
=============================================================================
