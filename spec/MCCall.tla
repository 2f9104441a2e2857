------------------------------- MODULE MCCall -------------------------------
(* Every call of the retriever with every combination of arguments: the request names the question, says exactly
   the arguments given (the default inventory when none is), and calls which differ in meaning differ.          *)
EXTENDS CtsApi, Json
CONSTANTS Urns, Invs, Levels, Refs0
VARIABLES c, done
O(S) == {<<>>} \cup {<<v>> : v \in S}
Methods == {"getCapabilities", "getMetadata", "getValidReff", "getReffs", "getFirstUrn", "getPrevNextUrn", "getSiblings", "getLabel", "getPassage", "getPassagePlus", "getTextualNode"}
TakesInv == Methods \ {"getReffs", "getSiblings", "getTextualNode"}
Call(m, u, i, lv, r, ctx, p, d) == [m |-> m, a |-> [urn |-> u, inv |-> i, level |-> lv, ref |-> r, context |-> ctx, plus |-> p], dinv |-> d]
Calls == {k \in {Call(m, u, i, lv, r, ctx, p, d) : m \in Methods, u \in O(Urns), i \in O(Invs), lv \in O(Levels), r \in O(Refs0), ctx \in O({"1"}), p \in BOOLEAN, d \in O(Invs)} :
   /\ (k.a.urn = <<>> => k.m \in {"getCapabilities", "getMetadata"})
   /\ (k.a.inv # <<>> => k.m \in TakesInv)
   /\ (k.a.level # <<>> => k.m \in {"getValidReff", "getReffs"}) /\ (k.m = "getReffs" => k.a.level # <<>>)
   /\ (k.a.ref # <<>> => k.m \in {"getReffs", "getSiblings", "getTextualNode"}) /\ (k.a.ref # <<>> => Len(Split(k.a.urn[1], ":")) = 4) /\ (k.m = "getSiblings" => k.a.ref # <<>>)
   /\ (k.a.context # <<>> => k.m \in {"getPassage", "getPassagePlus"})
   /\ (k.a.plus => k.m = "getTextualNode")}
Init == c \in Calls /\ done = FALSE
Next == ~done /\ done' = TRUE /\ c' = c
Spec == Init /\ [][Next]_<<c, done>>
Names(q) == {p[1] : p \in q}
Once == done => LET q == CallReq(c) IN Cardinality(Names(q)) = Cardinality(q) /\ "request" \in Names(q)
Said == done => LET q == CallReq(c) IN
  /\ (c.a.urn # <<>> <=> "urn" \in Names(q))
  /\ ("inv" \in Names(q) <=> (c.a.inv # <<>> \/ c.dinv # <<>>))
  /\ (c.a.inv # <<>> => <<"inv", c.a.inv[1]>> \in q)
  /\ ("context" \in Names(q) <=> c.a.context # <<>>)
  /\ ("level" \in Names(q) <=> c.a.level # <<>>)
\* the same question (method of the same name) with other arguments is another request
Meaning(k) == [m |-> k.m, u |-> IF k.a.ref = <<>> THEN k.a.urn ELSE <<k.a.urn[1] \o ":" \o k.a.ref[1]>>, lv |-> IF k.m = "getReffs" THEN <<NatStr(NatVal(k.a.level[1]) + DepthOf(k.a.ref))>> ELSE k.a.level, ctx |-> k.a.context, p |-> k.a.plus, i |-> IF k.a.inv # <<>> THEN k.a.inv ELSE k.dinv]
Apart == done => \A k \in {k \in Calls : k.m = c.m} : CallReq(k) = CallReq(c) => Meaning(k) = Meaning(c)
Emit == done => PrintT("SCN " \o ToJson(c))
=============================================================================
