------------------------------- MODULE DtsColl -------------------------------
(* Collections of a DTS endpoint and what a client knows of them.
   w: colls, a sequence of [id, type, title, desc, meta, depth, cite, kids] (a directed acyclic graph), per (members a page).
   An object of the client: [id, full, kids, pars]; kids and pars: [hi, all], hi the pages it may know, all when it
   knows it has them all.                                                                                            *)
EXTENDS Dts
Rec(w, id) == w.colls[CHOOSE i \in DOMAIN w.colls : w.colls[i].id = id]
HasId(w, id) == \E i \in DOMAIN w.colls : w.colls[i].id = id
Kids(w, id) == Rec(w, id).kids
Pars1(w, id) == LET q == SelectSeq(w.colls, LAMBDA c : id \in RangeOf(c.kids)) IN [i \in DOMAIN q |-> q[i].id]
Side(w, id, nav) == IF nav = "children" THEN Kids(w, id) ELSE Pars1(w, id)
NPages(n, per) == IF n = 0 THEN 1 ELSE (n + per - 1) \div per
PagesOf(w, id, nav) == NPages(Len(Side(w, id, nav)), w.per)
RECURSIVE Descs(_, _)
Descs(w, id) == LET k == Kids(w, id) IN k \o ConcatAll([i \in DOMAIN k |-> Descs(w, k[i])])
RECURSIVE CiteDepth(_)
CiteDepth(q) == IF q = <<>> THEN 0 ELSE MaxOf({1 + CiteDepth(q[i].kids) : i \in DOMAIN q})
DepthOfRec(r) == IF r.depth # <<>> THEN r.depth[1] ELSE CiteDepth(r.cite)
Half(hi, all) == [hi |-> hi, all |-> all]
FromReply(w, id) == [id |-> id, full |-> TRUE, kids |-> Half(1, PagesOf(w, id, "children") = 1 /\ ~w.oneview), pars |-> Half(0, FALSE)]
FromMember(w, id, blur) == [id |-> id, full |-> FALSE, kids |-> Half(IF blur THEN PagesOf(w, id, "children") ELSE IF Kids(w, id) = <<>> THEN 1 ELSE 0, FALSE), pars |-> Half(IF blur THEN PagesOf(w, id, "parents") ELSE 0, FALSE)]
SideOf(o, nav) == IF nav = "children" THEN o.kids ELSE o.pars
PutSide(o, nav, h) == IF nav = "children" THEN [o EXCEPT !.kids = h] ELSE [o EXCEPT !.pars = h]
\* the members known without asking
Sure(w, o, nav) == LET s == Side(w, o.id, nav)  n == SideOf(o, nav).hi * w.per IN RangeOf(SubSeq(s, 1, IF n > Len(s) THEN Len(s) ELSE n))
=============================================================================
