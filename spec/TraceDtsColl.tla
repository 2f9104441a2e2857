---------------------------- MODULE TraceDtsColl ----------------------------
(* A client walking the collections of a DTS endpoint.  Objects are numbered in the order they are seen;
   x.objs[n]: what object n may know; x.blur: objects may know more than the events tell.                 *)
EXTENDS DtsColl, Trace
VARIABLES s, l, st
Failing(e) == Failed(e.q)
Loud(e) == Clause(~Failing(e) \/ IsX(e.obs), "failed request reported", "error")
Want(e, ok, name, v) == IF Failing(e) THEN <<>> ELSE Clause(e.obs.k = "v" /\ ok, name, v)
NavOf(nav) == IF nav = "children" THEN <<>> ELSE <<nav>>
PageNeed(x, id, nav, p) == CollReq(x, <<id>>, NavOf(nav), IF p = 1 THEN <<>> ELSE <<NatStr(p)>>)
From(x, id, nav, p) == LET n == PagesOf(x.w, id, nav) IN [i \in 1..(IF p > n THEN 0 ELSE n - p + 1) |-> PageNeed(x, id, nav, p + i - 1)]
\* a side is read from a page it does not know for sure, or a known one, to the last
ReadsOK(x, e, o, nav) == LET h == SideOf(o, nav) IN
  IF h.all THEN e.q = <<>> ELSE \E p \in 1..(h.hi + 1) : Asked(x, e.q, From(x, o.id, nav, p))
\* questions on a whole tree: pages of the object and its descendants, as many as it takes
TreeOK(x, e, o) == LET ids == {o.id} \cup RangeOf(Descs(x.w, o.id))  r == AfterEntry(x, e.q) IN
  /\ \A i \in DOMAIN r : \E id \in ids : \E p \in 1..PagesOf(x.w, id, "children") : Is(r[i], PageNeed(x, id, "children", p))
  /\ \A i \in DOMAIN e.q : e.q[i].st # "ok" => i = Len(e.q)
Names(q) == [i \in DOMAIN q |-> q[i][1]]
IsTuple2(q) == \A i \in DOMAIN q : Len(q[i]) = 2
Bag(q, t) == Len(q) = Len(t) /\ RangeOf(q) = RangeOf(t)
Count(q, v) == Len(SelectSeq(q, LAMBDA y : y = v))
Bag2(q, t) == Len(q) = Len(t) /\ \A i \in DOMAIN q : Count(q, q[i]) = Count(t, q[i])

InfoOK(x, o, v) ==
  LET r == Rec(x.w, o.id)  sure == o.full \/ x.wide IN
  Clause(v.id = o.id, "identifier", o.id) \o Clause(v.title = r.title, "title", r.title) \o Clause(v.type = "https://www.w3.org/ns/hydra/core#" \o r.type, "type", r.type)
  \o Clause(v.size = Len(r.kids), "number of members", Len(r.kids)) \o Clause(v.desc = r.desc, "description", r.desc)
  \o Clause(v.readable = (r.type = "Resource"), "readable", r.type)
  \o Clause(v.cite = r.cite \/ (~sure /\ v.cite = <<>>), "citation", r.cite)
  \o Clause(v.depth = DepthOfRec(r) \/ (~sure /\ v.depth = 0), "depth of the citation", DepthOfRec(r))
  \o Clause(RangeOf(v.meta) \subseteq Said(r.meta) /\ (sure => RangeOf(v.meta) = Said(r.meta)), "metadata", r.meta)

O1(x, e) == x.objs[e.o]
Known0(x, e) == e.o \in DOMAIN x.objs
Verdict(sc, x, e) ==
  CASE e.op = "serve" -> <<>>
    [] e.op = "get" -> LET id == IF e.id = <<>> THEN x.w.colls[1].id ELSE e.id[1] IN
         Clause(Asked(x, e.q, <<CollReq(x, e.id, <<>>, <<>>)>>), "requests", e.id) \o Loud(e) \o Want(e, e.obs.v[1] = id, "collection", id)
    [] e.op = "kids" -> LET o == O1(x, e)  k == Kids(x.w, o.id) IN
         Clause(ReadsOK(x, e, o, "children"), "requests", o) \o Loud(e) \o
         (IF e.how \in {"members", "values"} THEN Want(e, Names(e.obs.v) = k, "children", k)
          ELSE IF e.how = "len" THEN Want(e, e.obs.v = Len(k), "number of children", Len(k)) ELSE Want(e, e.obs.v = k, "children", k))
    [] e.op = "parents" -> LET o == O1(x, e)  k == Pars1(x.w, o.id) IN
         Clause(ReadsOK(x, e, o, "parents"), "requests", o) \o Loud(e) \o
         (IF e.how = "len" THEN Want(e, e.obs.v = Len(k), "number of parents", Len(k)) ELSE Want(e, Bag(Names(e.obs.v), k), "parents", k))
    [] e.op = "child" -> LET o == O1(x, e)  here == e.id \in RangeOf(Kids(x.w, o.id)) IN
         Clause(ReadsOK(x, e, o, "children") \/ (e.q = <<>> /\ e.id \in Sure(x.w, o, "children")), "requests", o) \o Loud(e) \o
         (IF Failing(e) THEN <<>> ELSE IF here THEN Clause(e.obs.k = "v" /\ e.obs.v[1] = e.id, "child", e.id) ELSE Clause(IsXOf(e.obs, "KeyError"), "no such child", e.id))
    [] e.op = "retrieve" -> LET o == O1(x, e)  need == <<CollReq(x, <<o.id>>, <<>>, <<>>)>> IN
         Clause(IF o.full THEN e.q = <<>> ELSE Asked(x, e.q, need), "requests", need) \o Loud(e) \o Want(e, e.obs.v, "retrieved", TRUE)
    [] e.op = "info" -> Clause(e.q = <<>>, "requests", <<>>) \o Clause(e.obs.k = "v", "description", O1(x, e).id) \o (IF e.obs.k = "v" THEN InfoOK(x, O1(x, e), e.obs.v) ELSE <<>>)
    [] e.op = "desc" -> LET o == O1(x, e)  d == Descs(x.w, o.id)  rd == SelectSeq(d, LAMBDA i : Rec(x.w, i).type = "Resource") IN
         Clause(TreeOK(x, e, o), "requests", o) \o Loud(e) \o Want(e, Bag2(Names(e.obs.v), d), "descendants", d) \o (IF Failing(e) THEN <<>> ELSE Clause(Bag2(e.rd, rd), "readable descendants", rd))
    [] e.op = "look" -> LET o == O1(x, e)  in == e.id \in {o.id} \cup RangeOf(Descs(x.w, o.id)) IN
         Clause(TreeOK(x, e, o), "requests", o) \o Loud(e) \o
         (IF Failing(e) THEN <<>> ELSE IF e.how = "in" THEN Clause(e.obs.k = "v" /\ e.obs.v = in, "contained", in)
          ELSE IF in THEN Clause(e.obs.k = "v" /\ e.obs.v[1] = e.id, "found", e.id) ELSE Clause(IsXOf(e.obs, "UnknownCollection"), "not found", e.id))
    [] e.op = "static" ->  \* the page of one side, parsed alone
         LET k == Side(x.w, e.id, e.nav)  a == (e.page - 1) * x.w.per  pg == SubSeq(k, a + 1, MinOf({a + x.w.per, Len(k)})) IN
         Clause(e.obs.k = "v", "parsed", e.id) \o
         (IF e.obs.k # "v" THEN <<>> ELSE InfoOK(x, FromReply(x.w, e.id), e.obs.v.info)
          \o Clause(IF e.nav = "children" THEN e.obs.v.kids = pg /\ e.obs.v.pars = <<>> ELSE e.obs.v.kids = <<>> /\ Bag(e.obs.v.pars, pg), "members", pg)
          \o Clause(e.nav = "children" => \A i \in DOMAIN e.obs.v.back : e.obs.v.back[i] = <<e.id>>, "members know their parent", e.id))
    [] OTHER -> <<<<"unknown event", e.op>>>>

Start(sc) == [entry |-> sc.entry, routes |-> sc.routes, known |-> FALSE, w |-> [colls |-> sc.colls, per |-> sc.per, oneview |-> sc.oneview], wide |-> sc.wide, objs |-> <<>>, blur |-> FALSE]
Seen(x, v) == IF v[2] \in DOMAIN x.objs THEN x ELSE [x EXCEPT !.objs = x.objs @@ (v[2] :> FromMember(x.w, v[1], x.blur))]
RECURSIVE SeenAll(_, _)
SeenAll(x, q) == IF q = <<>> THEN x ELSE SeenAll(Seen(x, q[1]), Tail(q))
\* pages of a side after the requests of e
After(x, e, o, nav) ==
  LET n == PagesOf(x.w, o.id, nav)  h == SideOf(o, nav) IN
  IF ~Failing(e) THEN Half(n, TRUE)
  ELSE Half(MaxOf({h.hi} \cup {p \in 1..n : \E i \in DOMAIN e.q : e.q[i].st = "ok" /\ Is(e.q[i], PageNeed(x, o.id, nav, p))}), FALSE)
Complete(x, q) == [x EXCEPT !.objs = [n \in DOMAIN x.objs |-> IF \E i \in DOMAIN q : q[i][2] = n THEN PutSide(x.objs[n], "children", Half(PagesOf(x.w, x.objs[n].id, "children"), TRUE)) ELSE x.objs[n]]]
Maybe(x) == [x EXCEPT !.blur = TRUE, !.objs = [n \in DOMAIN x.objs |-> PutSide(x.objs[n], "children", Half(PagesOf(x.w, x.objs[n].id, "children"), x.objs[n].kids.all))]]
Step(sc, x0, e) ==
  LET x == IF e.op \in {"serve", "static"} THEN x0 ELSE [x0 EXCEPT !.known = KnownAfter(x0, e.q)]
      ok == e.obs.k = "v" IN
  CASE e.op = "serve" -> Start(sc)
    [] e.op = "get" -> IF ok THEN [x EXCEPT !.objs = x.objs @@ (e.obs.v[2] :> FromReply(x.w, e.obs.v[1]))] ELSE x
    [] e.op \in {"kids", "parents"} ->
         LET nav == IF e.op = "kids" THEN "children" ELSE "parents"
             y == [x EXCEPT !.objs[e.o] = PutSide(@, nav, After(x, e, x.objs[e.o], nav))] IN
         IF ok /\ e.how \in {"members", "values", "iter"} /\ (e.op = "parents" \/ e.how # "iter") THEN SeenAll(y, e.obs.v) ELSE y
    [] e.op = "child" -> LET y == IF e.q = <<>> THEN x ELSE [x EXCEPT !.objs[e.o] = PutSide(@, "children", After(x, e, x.objs[e.o], "children"))] IN IF ok THEN Seen(y, e.obs.v) ELSE y
    [] e.op = "retrieve" -> IF ok THEN [x EXCEPT !.objs[e.o].full = TRUE] ELSE x
    [] e.op = "desc" -> IF ok THEN Complete(SeenAll(x, e.obs.v), e.obs.v \o <<<<"", e.o>>>>) ELSE Maybe(x)
    [] e.op = "look" -> IF ok /\ e.how # "in" THEN Seen(Maybe(x), e.obs.v) ELSE Maybe(x)
    [] OTHER -> x
Init == s \in 1..Len(Scen) /\ l = 1 /\ st = [known |-> FALSE]
Next == /\ l <= Len(Scen[s].ev)
        /\ LET e == Scen[s].ev[l]
               v == Verdict(Scen[s], st, e)
           IN IF v # <<>> THEN Fail(Scen[s], l, v) ELSE st' = Step(Scen[s], st, e)
        /\ l' = l + 1 /\ s' = s
Spec == Init /\ [][Next]_<<s, l, st>>
=============================================================================
