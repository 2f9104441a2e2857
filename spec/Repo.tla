-------------------------------- MODULE Repo --------------------------------
(* Folders of CTS metadata and text files, and the inventories read from them.
   folder:  sequence of groups [id, meta, lab, works];  work: [id, meta, lang, lab, texts];
   text: [id, cls, lang, lab, file, cit, doc].   meta: "ok", "broken" (the file cannot be read) or "none" (no file);
   file: "ok", "none", "broken", "nocit";  cit: the scheme of the text as <<[name, pat]...>>;  lab: <<<<lang, text>>...>>.
   Entry of a read inventory: group [id, inv, works], work [id, lang, texts], text [.., folder].               *)
EXTENDS Str
OkWorks(g) == SelectSeq(g.works, LAMBDA w : w.meta = "ok")
TextEntry(t, f) == [id |-> t.id, cls |-> t.cls, lang |-> t.lang, folder |-> f, cit |-> IF t.file = "ok" THEN t.cit ELSE <<>>, doc |-> t.doc, file |-> t.file]
WorkEntry(w, f) == [id |-> w.id, lang |-> w.lang, texts |-> [i \in DOMAIN w.texts |-> TextEntry(w.texts[i], f)]]
GroupEntry(g, f, inv) == LET ws == OkWorks(g) IN [id |-> g.id, inv |-> inv, works |-> [i \in DOMAIN ws |-> WorkEntry(ws[i], f)]]
Pos(q, id) == IndexIn([i \in DOMAIN q |-> q[i].id], id)
\* the newest text of an identifier takes the place of the older one
RECURSIVE PutTexts(_, _)
PutTexts(q, n) == IF n = <<>> THEN q ELSE LET k == Pos(q, n[1].id) IN PutTexts(IF k = 0 THEN Append(q, n[1]) ELSE [q EXCEPT ![k] = n[1]], Tail(n))
RECURSIVE PutWorks(_, _)
PutWorks(q, n) == IF n = <<>> THEN q ELSE LET k == Pos(q, n[1].id) IN
  PutWorks(IF k = 0 THEN Append(q, n[1]) ELSE [q EXCEPT ![k].texts = PutTexts(@, n[1].texts)], Tail(n))
\* rules: the last accepting one; the group is presented with its folder
Takes(r, g, f) == CASE r.kind = "all" -> TRUE [] r.kind = "prefix" -> StartsWith(g.id, r.arg) [] r.kind = "folder" -> r.arg = NatStr(f) [] OTHER -> FALSE
RECURSIVE RuleFor(_, _, _, _)
RuleFor(rules, k, g, f) == IF k = 0 THEN 0 ELSE IF Takes(rules[k], g, f) THEN k ELSE RuleFor(rules, k - 1, g, f)
\* one textgroup arrives: merged into the one already there, or placed by the rules, or left out
Arrive(R, g, f, rules) ==
  LET k == Pos(R, g.id)  n == RuleFor(rules, Len(rules), g, f) IN
  IF k # 0 THEN [R EXCEPT ![k].works = PutWorks(@, GroupEntry(g, f, "").works)]
  ELSE IF n # 0 THEN Append(R, GroupEntry(g, f, rules[n].inv)) ELSE R
LeftOut(R, g, f, rules) == Pos(R, g.id) = 0 /\ RuleFor(rules, Len(rules), g, f) = 0
\* the groups which are read, in the order of the folders: <<f, g>>
RECURSIVE GroupsFrom(_, _)
GroupsFrom(repo, f) == IF f > Len(repo) THEN <<>> ELSE
  LET q == SelectSeq(repo[f], LAMBDA g : g.meta = "ok") IN [i \in DOMAIN q |-> <<f, q[i]>>] \o GroupsFrom(repo, f + 1)
RECURSIVE Fold(_, _, _)
Fold(R, q, rules) == IF q = <<>> THEN R ELSE Fold(Arrive(R, q[1][2], q[1][1], rules), Tail(q), rules)
Loaded(repo, rules) == Fold(<<>>, GroupsFrom(repo, 1), rules)
\* files whose reading fails (a work is looked for under a readable group only)
Broken(repo) == \E f \in DOMAIN repo : \E i \in DOMAIN repo[f] : LET g == repo[f][i] IN
                  g.meta = "broken" \/ (g.meta = "ok" /\ \E j \in DOMAIN g.works : g.works[j].meta = "broken")
RECURSIVE Undispatched(_, _, _)
Undispatched(R, q, rules) == q # <<>> /\ (LeftOut(R, q[1][2], q[1][1], rules) \/ Undispatched(Arrive(R, q[1][2], q[1][1], rules), Tail(q), rules))

\* --- as flat records [id, cls, par, lang, folder, cit]
Flat(R) == ConcatAll([i \in DOMAIN R |->
  <<[id |-> R[i].id, cls |-> "tg", par |-> R[i].inv, lang |-> <<>>, folder |-> 0, cit |-> <<>>]>> \o ConcatAll([j \in DOMAIN R[i].works |-> LET w == R[i].works[j] IN
    <<[id |-> w.id, cls |-> "wk", par |-> R[i].id, lang |-> w.lang, folder |-> 0, cit |-> <<>>]>> \o [k \in DOMAIN w.texts |-> LET t == w.texts[k] IN
       [id |-> t.id, cls |-> t.cls, par |-> w.id, lang |-> t.lang, folder |-> t.folder, cit |-> t.cit]]])])
TextsOf(R) == ConcatAll([i \in DOMAIN R |-> ConcatAll([j \in DOMAIN R[i].works |-> R[i].works[j].texts])])
\* labels said anywhere in the files which are read
LabelsOf(repo, id) ==
  LET gs == GroupsFrom(repo, 1)
      of(x) == IF x.id = id THEN RangeOf(x.lab) ELSE {}
  IN UNION {of(gs[i][2]) \cup UNION {LET w == OkWorks(gs[i][2])[j] IN of(w) \cup UNION {of(w.texts[k]) : k \in DOMAIN w.texts} : j \in DOMAIN OkWorks(gs[i][2])} : i \in DOMAIN gs}

DescsOf(repo, id) ==
  LET gs == GroupsFrom(repo, 1)
      of(t) == IF t.id = id THEN RangeOf(t.desc) ELSE {}
  IN UNION {UNION {LET w == OkWorks(gs[i][2])[j] IN UNION {of(w.texts[k]) : k \in DOMAIN w.texts} : j \in DOMAIN OkWorks(gs[i][2])} : i \in DOMAIN gs}

\* --- queries
\* identifiers above a text
Work(R, id) == LET w == {x \in RangeOf(Flat(R)) : x.id = id} IN (CHOOSE x \in w : TRUE).par
Group(R, id) == Work(R, Work(R, id))
Valid(R) == SelectSeq(TextsOf(R), LAMBDA t : t.cit # <<>>)
\* the part of the inventory made of the readable texts at or under id, from id on
Part(R, id) ==
  LET F == RangeOf(Flat(R))
      ts == {x \in F : x.cls \in {"ed", "tr", "co"} /\ x.cit # <<>> /\ (x.id = id \/ x.par = id \/ Group(R, x.id) = id)}
      ups == {x \in F : x.id = id \/ \E t \in ts : t.par = x.id /\ x.par = id}
  IN IF ts = {} THEN {} ELSE ts \cup ups
\* a page of a list: <<start, end, page shown, number of items>>, start and end as in [start:end]
CeilDiv(a, b) == (a + b - 1) \div b
PageOf(page, limit, n) ==
  LET lm == IF limit = <<>> \/ limit[1] < 1 \/ limit[1] > 100 THEN 10 ELSE limit[1]
      last == IF n = 0 THEN 1 ELSE CeilDiv(n, lm)
      p == IF page = <<>> \/ page[1] = 0 THEN 1 ELSE IF page[1] > last THEN last ELSE page[1]
      from == (p - 1) * lm
      to == IF p * lm < n THEN p * lm ELSE n
  IN <<from, to, p, to - from>>
=============================================================================
