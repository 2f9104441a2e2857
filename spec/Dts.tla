-------------------------------- MODULE Dts --------------------------------
(* A client of a DTS endpoint.
   URI references: [sch, host, abs, segs, qs]; a base has sch and host.  Routes are given by the entry point as
   URI references; a question is one request at its route, with the route's own parameters and the question's.
   A request: base (text of the URI without query), ps (its parameters), accept, st ("ok" or what went wrong).  *)
EXTENDS CtsText
Opt2(k, o) == IF o = <<>> THEN {} ELSE {<<k, o[1]>>}
\* ---- URI references (RFC 3986, 5.2)
RECURSIVE Clean(_, _)
Clean(in, out) ==
  IF in = <<>> THEN out
  ELSE LET h == in[1]  t == Tail(in)  end == IF t = <<>> THEN <<"">> ELSE <<>>
           pop == IF out = <<>> THEN <<>> ELSE SubSeq(out, 1, Len(out) - 1) IN
       IF h = "." THEN Clean(t, out \o end) ELSE IF h = ".." THEN Clean(t, pop \o end) ELSE Clean(t, Append(out, h))
Front(q) == IF q = <<>> THEN <<>> ELSE SubSeq(q, 1, Len(q) - 1)
Resolve(b, r) ==
  [sch |-> IF r.sch # "" THEN r.sch ELSE b.sch, host |-> IF r.host # "" THEN r.host ELSE b.host, qs |-> r.qs, abs |-> TRUE,
   segs |-> IF r.host # "" \/ r.abs THEN Clean(r.segs, <<>>) ELSE IF r.segs = <<>> THEN b.segs ELSE Clean(Front(b.segs) \o r.segs, <<>>)]
UriText(u) == u.sch \o "://" \o u.host \o "/" \o Join(u.segs, "/")

\* ---- requests
Pars(r) == RangeOf(r.ps)
Plain1(r) == Len(r.ps) = Cardinality(Pars(r))
Failed(q) == \E i \in DOMAIN q : q[i].st # "ok"
JSONLD == "application/ld+json"
Req(x, route, ps, opt) == LET u == Resolve(x.entry, x.routes[route]) IN
  [base |-> UriText(u), ps |-> ps \cup RangeOf(u.qs), opt |-> opt, json |-> route # "documents"]
IsEntry(x, r) == r.base = UriText(x.entry) /\ Pars(r) = RangeOf(x.entry.qs)
Is(r, need) == r.base = need.base /\ need.ps \subseteq Pars(r) /\ Pars(r) \subseteq need.ps \cup need.opt /\ Plain1(r) /\ r.verb = "GET" /\ r.json = need.json
\* the entry point is read once (asked first, again when it failed); then the needs, in order, up to the first failure
AfterEntry(x, q) == IF q # <<>> /\ IsEntry(x, q[1]) /\ (~x.known \/ q[1].st # "ok") THEN Tail(q) ELSE q
Asked(x, q, needs) ==
  IF needs = <<>> THEN q = <<>>
  ELSE IF ~x.known /\ (q = <<>> \/ ~IsEntry(x, q[1])) THEN FALSE
  ELSE IF ~x.known /\ q[1].st # "ok" THEN Len(q) = 1
  ELSE LET r == IF x.known THEN q ELSE Tail(q) IN
       /\ Len(r) <= Len(needs) /\ \A i \in DOMAIN r : Is(r[i], needs[i])
       /\ \A i \in DOMAIN r : r[i].st # "ok" => i = Len(r)
       /\ (Len(r) < Len(needs) => r # <<>> /\ r[Len(r)].st # "ok")
KnownAfter(x, q) == x.known \/ \E i \in DOMAIN q : IsEntry(x, q[i]) /\ q[i].st = "ok"

\* a reference is [s, e]; asked for none, one or a range
RefPars(ref) == IF ref = <<>> THEN {} ELSE IF ref[1].e = <<>> THEN {<<"ref", ref[1].s>>} ELSE {<<"start", ref[1].s>>, <<"end", ref[1].e[1]>>}
\* parameters with their default value may be left out
CollReq(x, id, nav, page) == Req(x, "collections", Opt2("id", id) \cup (IF nav = <<"parents">> THEN {<<"nav", "parents">>} ELSE {}) \cup (IF page \in {<<>>, <<"1">>} THEN {} ELSE Opt2("page", page)),
                                 {<<"nav", "children">>, <<"page", "1">>})
NavReq(x, id, lv, ref, group, excl, page) == Req(x, "navigation", Opt2("id", id) \cup Opt2("level", lv) \cup RefPars(ref) \cup Opt2("groupBy", group) \cup Opt2("exclude", excl) \cup Opt2("page", page), {})
DocReq(x, id, ref) == Req(x, "documents", Opt2("id", id) \cup RefPars(ref), {})
\* the p-th page of the references asked by a resolver
PageReq(x, id, lv, ref, group, excl, p) == [NavReq(x, id, lv, ref, group, excl, IF p = 1 THEN <<>> ELSE <<NatStr(p)>>) EXCEPT !.opt = IF p = 1 THEN {<<"page", "1">>} ELSE {}]

\* ---- references as served: [s, e, type, meta], the type defaulting to that of the reply
Said(m) == {m[i] : i \in DOMAIN m}
RefOf(r, type) == [s |-> r.s, e |-> r.e, type |-> IF r.type # <<>> THEN r.type ELSE type, meta |-> Said(r.meta)]
RefsOfPages(pages, types) == ConcatAll([p \in DOMAIN pages |-> [i \in DOMAIN pages[p] |-> RefOf(pages[p][i], types[p])]])
\* a set of references holds a string which is one of them, alone
Holds(q, t) == \E i \in DOMAIN q : q[i].s = t /\ q[i].e = <<>>
=============================================================================
