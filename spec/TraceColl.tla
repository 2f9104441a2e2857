------------------------------ MODULE TraceColl ------------------------------
EXTENDS Coll, Trace
VARIABLES s, l, st     \* st.h heap, st.dead deleted objects, st.lab identifiers having a label, st.copied

Alive(x, i) == ({i} \cup RangeOf(Parents(x.h, i))) \cap x.dead = {}
HeapOK(x, e) ==
  LET h == x.h  o == e.objs IN
  Clause(Len(o) = Len(h), "objects", Len(h)) \o
  (IF Len(o) # Len(h) THEN <<>> ELSE
   Clause(\A i \in DOMAIN h : o[i].id = h[i].id, "identifiers", [i \in DOMAIN h |-> h[i].id])
   \o Clause(\A i \in DOMAIN h : o[i].cls = h[i].cls, "classes", [i \in DOMAIN h |-> h[i].cls])
   \o Clause(\A i \in DOMAIN h : Alive(x, i) => o[i].par = h[i].par, "parent", [i \in DOMAIN h |-> h[i].par])
   \o Clause(\A i \in DOMAIN h : Alive(x, i) => o[i].pars = Parents(h, i), "parents, closest first", [i \in DOMAIN h |-> Parents(h, i)])
   \o Clause(\A i \in DOMAIN h : o[i].mem = Members(h, i), "members", [i \in DOMAIN h |-> Members(h, i)])
   \o Clause(\A i \in DOMAIN h : o[i].size = Len(Members(h, i)), "size", [i \in DOMAIN h |-> Len(Members(h, i))])
   \o Clause(\A i \in DOMAIN h : o[i].kids = h[i].kids, "children", [i \in DOMAIN h |-> h[i].kids])
   \o Clause(\A i \in DOMAIN h : o[i].desc = Desc(h, i), "descendants", [i \in DOMAIN h |-> Desc(h, i)])
   \o Clause(\A i \in DOMAIN h : o[i].read = Readable(h, i) /\ o[i].readable = IsText(h, i), "readable descendants", [i \in DOMAIN h |-> Readable(h, i)])
   \o Clause(\A i \in DOMAIN h : h[i].cls \in {"wk", "tg", "inv", "ic"} => o[i].len = Size(h, i), "number of texts", [i \in DOMAIN h |-> Size(h, i)])
   \o Clause(\A i \in DOMAIN h : \A k \in DOMAIN o[i].look : o[i].look[k] = Lookup(h, i, e.keys[k]), "lookup by identifier",
             [i \in DOMAIN h |-> [k \in DOMAIN e.keys |-> Lookup(h, i, e.keys[k])]])
   \o Clause(\A i \in DOMAIN h : \A k \in DOMAIN o[i].has : o[i].has[k] = (Lookup(h, i, e.keys[k]) # 0), "containment", e.keys)
   \o Clause(x.copied \/ \A k \in DOMAIN e.lab : e.lab[k] = (e.keys[k] \in x.lab), "metadata of the members", x.lab)
   \o Clause(\A i \in DOMAIN h : h[i].cls \in TextCls => o[i].cit = h[i].cit /\ (x.dead # {} \/ h[i].lang = <<>> \/ o[i].lang = h[i].lang), "citation and language of the texts", [i \in DOMAIN h |-> h[i].cit]))

\* the label of an object in a language when there is one, else in any (labels of objects are told apart by their second word)
Said(v, id, lang) == v.id = id /\ v.w \in (CASE lang = <<"eng">> -> {"Label"} [] lang = <<"fre">> -> {"Titre"} [] OTHER -> {"Label", "Titre"})

Verdict(sc, x, e) ==
  CASE e.op = "heap" -> HeapOK(x, e)
    [] e.op \in {"new", "setpar", "label"} -> <<>>
    [] e.op = "del" -> LET i == Lookup(x.h, e.o, e.key) IN
          IF i = 0 THEN Clause(IsXOf(e.obs, "UnknownCollection"), "unknown member is refused", "UnknownCollection") ELSE Clause(e.obs.k = "v", "deletion", i)
    [] e.op = "update" -> LET err == MergeError(x.h, e.w, e.o) IN
          IF err # "" THEN Clause(IsXOf(e.obs, err), "merge is refused", err) ELSE Clause(IsV(e.obs, e.w), "merge gives back the object", e.w)
    [] e.op = "editions" -> Clause(e.res = Editions(x.h, e.o), "editions", Editions(x.h, e.o))
    [] e.op = "translations" -> LET w == IF x.h[e.o].cls = "wk" THEN e.o ELSE x.h[e.o].par IN
          Clause(e.res = Translations(x.h, w, e.lang), "translations", Translations(x.h, w, e.lang))
    [] e.op = "names" -> Clause(\A i \in DOMAIN e.said : LET y == e.said[i] IN
                                 Said(y.title, x.h[x.h[e.o].par].id, y.lang) /\ Said(y.creator, x.h[x.h[x.h[e.o].par].par].id, y.lang), "title and creator", x.h[e.o].id)
                         \o Clause(\A i \in DOMAIN e.said : LET y == e.said[i] IN Said(y.subject, x.h[e.o].id, y.lang) /\ Said(y.about, x.h[e.o].id, y.lang),
                                   "subject and description", x.h[e.o].id)
    [] e.op = "dispatch" -> Clause(e.obs.k = "v", "dispatched", e.rules)
    [] OTHER -> <<<<"unknown event", e.op>>>>

Step(x, e) ==
  CASE e.op = "new" -> LET g == Append(x.h, Obj(e.cls, e.id, e.lang, e.cit)) IN
          [x EXCEPT !.h = IF e.par = 0 THEN g ELSE SetParent(g, Len(g), e.par)]
    [] e.op = "setpar" -> [x EXCEPT !.h = SetParent(x.h, e.c, e.p)]
    [] e.op = "label" -> [x EXCEPT !.lab = @ \cup {x.h[e.o].id}]
    [] e.op = "del" -> LET i == Lookup(x.h, e.o, e.key) IN
          IF i = 0 THEN x ELSE [x EXCEPT !.h = Delete(x.h, i), !.dead = @ \cup {i}, !.lab = @ \ {e.key}]
    [] e.op = "update" -> IF MergeError(x.h, e.w, e.o) # "" THEN x ELSE [x EXCEPT !.h = Merge(x.h, e.w, e.o), !.copied = TRUE]
    [] e.op = "dispatch" -> [x EXCEPT !.h = Dispatched(x.h, e.root, e.rules, e.c, e.path)]
    [] OTHER -> x
Init == s \in 1..Len(Scen) /\ l = 1 /\ st = [h |-> <<>>, dead |-> {}, lab |-> {}, copied |-> FALSE]
Next == /\ l <= Len(Scen[s].ev)
        /\ LET e == Scen[s].ev[l]
               v == Verdict(Scen[s], st, e)
           IN IF v # <<>> THEN Fail(Scen[s], l, v) ELSE st' = Step(st, e)
        /\ l' = l + 1 /\ s' = s
Spec == Init /\ [][Next]_<<s, l, st>>
=============================================================================
