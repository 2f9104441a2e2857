------------------------------- MODULE CtsUrn -------------------------------
(* CTS URNs: urn:<urnns>:<ctsns>[:<textgroup>[.<work>[.<version>]][:<passage>]]

   State: the components of one URN object, each an optional string (<<>> or <<x>>), and whether the
   object still prints the text it was built from.  Actions: edits of one component, reads.
   Passage references are CtsRef values; here they are optional strings.                              *)
EXTENDS Str, TLC

Comps == <<"urn_namespace", "namespace", "textgroup", "work", "version", "reference">>

Blank == [urn_namespace |-> <<>>, namespace |-> <<>>, textgroup |-> <<>>, work |-> <<>>,
          version |-> <<>>, reference |-> <<>>]

\* --- parsing: text -> components -------------------------------------------------------------------
NoFragment(t) == Before(t, "#")
Fields(t) == Split(NoFragment(t), ":")
Parseable(t) == Len(Fields(t)) >= 3
Parse(t) ==
  LET f == Fields(t)
      m == IF Len(f) >= 4 THEN Split(f[4], ".") ELSE <<>>
      At(q, i) == IF Len(q) >= i THEN <<q[i]>> ELSE <<>>
  IN  [urn_namespace |-> <<f[2]>>, namespace |-> <<f[3]>>,
       textgroup |-> At(m, 1), work |-> At(m, 2), version |-> At(m, 3),
       reference |-> IF Len(f) = 5 THEN <<f[5]>> ELSE <<>>]

Set_(o) == o # <<>>
\* no missing inner component
WF(u) == /\ Set_(u.urn_namespace) /\ Set_(u.namespace)
         /\ (Set_(u.version) => Set_(u.work)) /\ (Set_(u.work) => Set_(u.textgroup))
         /\ (Set_(u.reference) => Set_(u.work))

\* --- printing ---------------------------------------------------------------------------------------
Opt(o, sep) == IF o = <<>> THEN "" ELSE sep \o o[1]
Head3(u) == "urn:" \o u.urn_namespace[1] \o ":" \o u.namespace[1]
Print_(u) == Head3(u) \o Opt(u.textgroup, ":") \o Opt(u.work, ".") \o Opt(u.version, ".") \o Opt(u.reference, ":")

\* --- truncation: <<>> when the requested component is missing ---------------------------------------
RefStart(r) == Before(r, "-")
RefEnd(r) == IF Has(r, "-") THEN <<Split(r, "-")[2]>> ELSE <<>>
Middle(u) == Head3(u) \o Opt(u.textgroup, ":") \o Opt(u.work, ".") \o Opt(u.version, ".")
Keys == <<"NAMESPACE", "TEXTGROUP", "WORK", "VERSION", "PASSAGE", "PASSAGE_START", "PASSAGE_END", "NO_PASSAGE", "COMPLETE">>
UpTo(u, key) ==
  CASE key = "NAMESPACE" -> <<Head3(u)>>
    [] key = "TEXTGROUP" -> IF Set_(u.textgroup) THEN <<Head3(u) \o Opt(u.textgroup, ":")>> ELSE <<>>
    [] key = "WORK" -> IF Set_(u.work) THEN <<Head3(u) \o Opt(u.textgroup, ":") \o Opt(u.work, ".")>> ELSE <<>>
    [] key = "VERSION" -> IF Set_(u.version) THEN <<Middle(u)>> ELSE <<>>
    [] key = "NO_PASSAGE" -> IF Set_(u.work) THEN <<Middle(u)>> ELSE <<>>
    [] key = "PASSAGE" -> IF Set_(u.reference) THEN <<Middle(u) \o ":" \o u.reference[1]>> ELSE <<>>
    [] key = "PASSAGE_START" -> IF Set_(u.reference) THEN <<Middle(u) \o ":" \o RefStart(u.reference[1])>> ELSE <<>>
    [] key = "PASSAGE_END" -> IF Set_(u.reference) /\ RefEnd(u.reference[1]) # <<>>
                              THEN <<Middle(u) \o ":" \o RefEnd(u.reference[1])[1]>> ELSE <<>>
    [] key = "COMPLETE" -> <<Print_(u)>>

\* --- size order (the passage does not count) --------------------------------------------------------
Size(u) == Cardinality({i \in 1..5 : Set_(u[Comps[i]])})

Edit(u, c, v) == [u EXCEPT ![c] = v]
=============================================================================
