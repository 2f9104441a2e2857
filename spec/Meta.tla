-------------------------------- MODULE Meta --------------------------------
(* One graph of statements <<node, key, value>> shared by every metadata object and collection.
   Keys are [ns, name]; values [t, s, lang, dt] with t in "lit","uri","bn", lang and dt optional.       *)
EXTENDS Str
K(ns, name) == [ns |-> ns, name |-> name]
Lit(s, lang, dt) == [t |-> "lit", s |-> s, lang |-> lang, dt |-> dt]
Uri(s) == [t |-> "uri", s |-> s, lang |-> <<>>, dt |-> <<>>]
Bn(s) == [t |-> "bn", s |-> s, lang |-> <<>>, dt |-> <<>>]
NodeValue(n) == IF StartsWith(n, "_:") THEN Bn(n) ELSE Uri(n)
XSD == "http://www.w3.org/2001/XMLSchema#"
\* what a caller's value is in the graph: a literal stays what it is, a requested language makes a literal
\* of anything else, identifiers stay identifiers, and the rest becomes a plain or typed literal
ToValue(v, lang) ==
  CASE v.kind = "lit" -> Lit(v.s, v.lang, v.dt)
    [] lang # <<>> -> Lit(v.s, lang, <<>>)
    [] v.kind = "uri" -> Uri(v.s)
    [] v.kind = "bn" -> Bn(v.s)
    [] v.kind = "int" -> Lit(v.s, <<>>, <<XSD \o "integer">>)
    [] v.kind = "bool" -> Lit(v.s, <<>>, <<XSD \o "boolean">>)
    [] OTHER -> Lit(v.s, <<>>, <<>>)
T(n, k, v) == [n |-> n, k |-> k, v |-> v]
Add(G, n, k, v) == G \cup {T(n, k, v)}
Put(G, n, k, v) == {x \in G : ~(x.n = n /\ x.k = k)} \cup {T(n, k, v)}
Vals(G, n, k) == {x.v : x \in {y \in G : y.n = n /\ y.k = k}}
ByLang(G, n, k, lang) == {v \in Vals(G, n, k) : v.t = "lit" /\ v.lang = lang}
\* the acceptable answers for one value: in the language if there is one, otherwise any value
SingleSet(G, n, k, lang) == IF lang # <<>> /\ ByLang(G, n, k, lang) # {} THEN ByLang(G, n, k, lang) ELSE Vals(G, n, k)
\* remove statements about n (k, v optional) ; remove statements pointing to n (subject, k optional)
Remove(G, n, k, v) == {x \in G : ~(x.n = n /\ (k = <<>> \/ x.k = k[1]) /\ (v = <<>> \/ x.v = v[1]))}
Unlink(G, n, s, k) == {x \in G : ~(x.v = NodeValue(n) /\ (s = <<>> \/ x.n = s[1]) /\ (k = <<>> \/ x.k = k[1]))}
\* terms: full keys or whole namespaces
Term(k) == k.ns \o k.name
Listed(k, terms) == Term(k) \in terms \/ k.ns \in terms
Select(G, n, only, excl) ==
  {x \in G : x.n = n /\ (only = <<>> \/ Listed(x.k, RangeOf(only[1]))) /\ (only # <<>> \/ excl = <<>> \/ ~Listed(x.k, RangeOf(excl[1])))}

\* --- collections and texts on top of the graph
RDFNS == "http://www.w3.org/1999/02/22-rdf-syntax-ns#"
RDFS == "http://www.w3.org/2000/01/rdf-schema#"
SKOS == "http://www.w3.org/2004/02/skos/core#"
DC == "http://purl.org/dc/elements/1.1/"
DCT == "http://purl.org/dc/terms/"
DTS == "https://w3id.org/dts/api#"
CTS == "http://chs.harvard.edu/xmlns/cts/"
CAP == "http://purl.org/capitains/ns/1.0#"
Label == K(RDFS, "label")
SetLabel(G, n, s, lang) == Add(Add(G, n, K(SKOS, "prefLabel"), Lit(s, lang, <<>>)), n, Label, Lit(s, lang, <<>>))
\* cls: [type |-> [ns, name], model |-> name in DTS, title |-> CTS name of the title property or ""]
Typed(G, n, cls) == Put(Put(G, n, K(RDFNS, "type"), Uri(Term(cls.type))), n, K(DTS, "model"), Uri(DTS \o cls.model))
\* setting a CTS property; the property which is the title of the class also sets the label
SetProp(G, n, cls, prop, v, lang) ==
  LET g == Add(G, n, K(CTS, prop), ToValue(v, lang)) IN
  IF prop = cls.title /\ prop # "" THEN SetLabel(g, n, v.s, IF lang = <<>> /\ v.kind = "lit" THEN v.lang ELSE lang) ELSE g
=============================================================================
