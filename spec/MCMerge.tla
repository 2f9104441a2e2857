------------------------------- MODULE MCMerge -------------------------------
(* Two textgroups of the same identifier with every choice of works and texts, and every sequence of K merges. *)
EXTENDS Coll, TLC, Json
CONSTANTS K
VARIABLES h, h0, hist
G == "urn:cts:n:t"
Wk == {"w", "v"}
Opt == {<<>>} \cup {<<q>> : q \in SUBSET {"x", "y"}}
Shapes == [Wk -> Opt]
RECURSIVE Build(_, _)
Build(g, news) ==
  IF news = <<>> THEN g ELSE
  LET n == news[1]  a == Append(g, Obj(n.cls, n.id, n.lang, n.cit)) IN
  Build(IF n.par = 0 THEN a ELSE SetParent(a, Len(a), n.par), Tail(news))
New(cls, id, par, k) == [op |-> "new", cls |-> cls, id |-> id, par |-> par, lang |-> IF cls \in {"wk", "ed"} THEN <<"lat">> ELSE IF cls = "tr" THEN <<"eng">> ELSE <<>>,
                         cit |-> IF cls \in TextCls THEN <<"lv" \o NatStr(k)>> ELSE <<>>]
\* the creation of a textgroup of shape f as a sequence of new objects, the first having index b
TextNews(f, w, pw, k) == LET wid == G \o "." \o w IN
  (IF "x" \in f[w][1] THEN <<New("ed", wid \o ".x", pw, k)>> ELSE <<>>) \o (IF "y" \in f[w][1] THEN <<New("tr", wid \o ".y", pw, k)>> ELSE <<>>)
WorkNews(f, w, pg, at, k) == IF f[w] = <<>> THEN <<>> ELSE <<New("wk", G \o "." \o w, pg, k)>> \o TextNews(f, w, at, k)
GroupNews(f, b, k) ==
  LET a == WorkNews(f, "w", b, b + 1, k) IN
  <<New("tg", G, 0, k)>> \o a \o WorkNews(f, "v", b, b + 1 + Len(a), k)
News(f1, f2) == LET a == GroupNews(f1, 1, 1) IN a \o GroupNews(f2, Len(a) + 1, 2)
Init == \E f1, f2 \in Shapes : LET n == News(f1, f2) IN
          h = Build(<<>>, n) /\ h0 = Build(<<>>, n) /\ hist = n
Done == Len(hist) - Len(h0)
Next == Done < K /\ \E w, o \in DOMAIN h : /\ w # o /\ h[w].cls \in {"wk", "tg"} /\ h[o].cls = h[w].cls /\ h[w].id = h[o].id
   /\ h' = Merge(h, w, o) /\ hist' = Append(hist, [op |-> "update", w |-> w, o |-> o]) /\ h0' = h0
Spec == Init /\ [][Next]_<<h, h0, hist>>
IdsOf(g, i) == {g[j].id : j \in RangeOf(Desc(g, i))}
Last == hist[Len(hist)]
OnePerId == \A p \in DOMAIN h : \A a, b \in DOMAIN h[p].kids : a # b => h[h[p].kids[a]].id # h[h[p].kids[b]].id
ChildHasParent == \A p \in DOMAIN h : h[p].par = 0 => \A c \in RangeOf(h[p].kids) : h[c].par = p
\* the result holds everything of both sides, texts of the added side win, the added side of a textgroup merge is untouched and not shared
Union == [][LET o == hist'[Len(hist')] IN
   /\ IdsOf(h', o.w) = IdsOf(h, o.w) \cup IdsOf(h, o.o)
   /\ \A j \in RangeOf(Desc(h, o.o)) : IsText(h, j) => h'[Lookup(h', o.w, h[j].id)].cit = h[j].cit
   /\ \A j \in RangeOf(Desc(h, o.w)) : h[j].id \notin IdsOf(h, o.o) => Lookup(h', o.w, h[j].id) = j
   /\ h[o.w].cls = "tg" => /\ \A j \in {o.o} \cup RangeOf(Desc(h, o.o)) : h'[j] = h[j]
                           /\ RangeOf(Desc(h', o.w)) \cap RangeOf(Desc(h', o.o)) \subseteq RangeOf(Desc(h, o.w)) \cap RangeOf(Desc(h, o.o))
   /\ h'[o.w].par = h[o.w].par]_<<h, h0, hist>>
Emit == (Done = K) => PrintT("SCN " \o ToJson(hist))
=============================================================================
