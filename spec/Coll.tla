-------------------------------- MODULE Coll --------------------------------
(* Trees of collections.  The heap h is a sequence of objects [cls, id, par, kids, lang, cit]: par is 0 or the
   index of the parent, kids the indexes of the children in order of arrival (at most one per identifier).   *)
EXTENDS Str, Integers
TextCls == {"ed", "tr", "co"}
Obj(cls, id, lang, cit) == [cls |-> cls, id |-> id, par |-> 0, kids |-> <<>>, lang |-> lang, cit |-> cit]
IsText(h, i) == h[i].cls \in TextCls
Members(h, i) == IF IsText(h, i) THEN <<>> ELSE h[i].kids
RECURSIVE Desc(_, _)
Desc(h, i) == LET m == Members(h, i) IN m \o ConcatAll([j \in DOMAIN m |-> Desc(h, m[j])])
RECURSIVE Parents(_, _)
Parents(h, i) == IF h[i].par = 0 THEN <<>> ELSE <<h[i].par>> \o Parents(h, h[i].par)
Readable(h, i) == SelectSeq(Desc(h, i), LAMBDA j : IsText(h, j))
\* first object of that identifier: oneself, the members, then the descendants in order; 0 when there is none
Lookup(h, i, key) ==
  LET all == <<i>> \o Members(h, i) \o Desc(h, i)
      p == IndexIn([j \in DOMAIN all |-> h[all[j]].id], key)
  IN IF p = 0 THEN 0 ELSE all[p]
ChildPos(h, p, id) == IndexIn([j \in DOMAIN h[p].kids |-> h[h[p].kids[j]].id], id)
\* an object joins its parent unless the parent already has a child of that identifier
SetParent(h, c, p) ==
  LET g == [h EXCEPT ![c].par = p] IN
  IF ChildPos(h, p, h[c].id) # 0 THEN g ELSE [g EXCEPT ![p].kids = Append(@, c)]
DropAt(q, k) == SubSeq(q, 1, k - 1) \o SubSeq(q, k + 1, Len(q))
Delete(h, item) ==
  LET p == h[item].par  k == IF p = 0 THEN 0 ELSE ChildPos(h, p, h[item].id) IN
  IF k = 0 THEN h ELSE [h EXCEPT ![p].kids = DropAt(@, k)]
\* number of texts
RECURSIVE Sum(_)
Sum(q) == IF q = <<>> THEN 0 ELSE q[1] + Sum(Tail(q))
RECURSIVE Size(_, _)
Size(h, i) == IF h[i].cls = "wk" THEN Len(h[i].kids) ELSE Sum([j \in DOMAIN h[i].kids |-> Size(h, h[i].kids[j])])

\* --- merging
\* child c takes the place of the child of p with its identifier, or comes last
PutKid(h, p, c) ==
  LET k == ChildPos(h, p, h[c].id) g == [h EXCEPT ![c].par = p] IN
  IF k = 0 THEN [g EXCEPT ![p].kids = Append(@, c)] ELSE [g EXCEPT ![p].kids[k] = c]
RECURSIVE PutAll(_, _, _)
PutAll(h, p, q) == IF q = <<>> THEN h ELSE PutAll(PutKid(h, p, q[1]), p, Tail(q))
\* the texts of work o replace or join those of work w (the objects themselves)
MergeWork(h, w, o) == PutAll(h, w, h[o].kids)
\* copies of the objects of q, appended to the heap under parent p
RECURSIVE CopyKids(_, _, _)
CopyKids(h, p, q) ==
  IF q = <<>> THEN h
  ELSE CopyKids(PutKid(Append(h, [h[q[1]] EXCEPT !.par = 0, !.kids = <<>>]), p, Len(h) + 1), p, Tail(q))
\* the works of textgroup o are copied into textgroup t: new works as a whole, texts of known works one by one
RECURSIVE MergeGroupFrom(_, _, _)
MergeGroupFrom(h, t, q) ==
  IF q = <<>> THEN h ELSE
  LET o == q[1]  k == ChildPos(h, t, h[o].id)
      g == IF k # 0 THEN CopyKids(h, h[t].kids[k], h[o].kids)
           ELSE LET h1 == PutKid(Append(h, [h[o] EXCEPT !.par = 0, !.kids = <<>>]), t, Len(h) + 1)
                IN CopyKids(h1, Len(h) + 1, h[o].kids)
  IN MergeGroupFrom(g, t, Tail(q))
MergeGroup(h, t, o) == MergeGroupFrom(h, t, h[o].kids)
MergeError(h, a, b) == IF h[a].cls # h[b].cls THEN "TypeError" ELSE IF h[a].id # h[b].id THEN "InvalidURN" ELSE ""
Merge(h, a, b) == IF h[a].cls = "wk" THEN MergeWork(h, a, b) ELSE MergeGroup(h, a, b)

\* --- sibling texts
Editions(h, i) == SelectSeq(h[h[i].par].kids, LAMBDA j : h[j].cls = "ed")
Translations(h, w, lang) == SelectSeq(h[w].kids, LAMBDA j : h[j].cls = "tr" /\ (lang = <<>> \/ h[j].lang = lang))

\* --- dispatching: the last rule accepting the collection wins; the first rule (default) accepts everything
\* a rule [inv, kind, arg]
Accepts(r, h, c, path) ==
  CASE r.kind = "all" -> TRUE
    [] r.kind = "prefix" -> StartsWith(h[c].id, r.arg)
    [] r.kind = "path" -> StartsWith(path, r.arg)
    [] OTHER -> FALSE      \* "never", and "truthy": only True itself counts
RECURSIVE Chosen(_, _, _, _, _)
Chosen(rules, k, h, c, path) == IF k = 0 THEN 0 ELSE IF Accepts(rules[k], h, c, path) THEN k ELSE Chosen(rules, k - 1, h, c, path)
\* root: collection of inventories
Dispatched(h, root, rules, c, path) ==
  LET k == Chosen(rules, Len(rules), h, c, path)
      p == ChildPos(h, root, rules[k].inv)
  IN SetParent(h, c, h[root].kids[p])
=============================================================================
