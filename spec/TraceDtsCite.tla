---------------------------- MODULE TraceDtsCite ----------------------------
(* A scheme of citations being built, changed, read, exported and copied; references and sets compared. *)
EXTENDS DtsCite, Trace
VARIABLES s, l, st
\* what is seen at node i of the structure x: x.f the forest, x.set: held by a set, x.top the name of the top citation, x.dep the depth given
NodeName(x, i) == IF i = 0 THEN x.top ELSE At(x.f, i).name
DepthOf(x, i) == LET d == Depth(KidsAt(x.f, i)) IN IF i = 0 /\ x.set THEN (IF x.dep # <<>> THEN x.dep[1] ELSE d) ELSE 1 + d
Neg(f, d, k) == IF d + k < 0 THEN <<>> ELSE LevelAt(f, d + k)
LookOK(x, i, v) ==
  LET k == KidsAt(x.f, i)  d == Depth(k) IN
  Clause(v.depth = DepthOf(x, i), "depth", DepthOf(x, i))
  \o Clause(v.len = Size(k), "number of citations", Size(k))
  \o Clause(v.iter = (IF i = 0 /\ x.set THEN <<>> ELSE <<NodeName(x, i)>>) \o Pre(k), "citations in order", Pre(k))
  \o Clause(v.kids = LevelAt(k, 0), "children", LevelAt(k, 0))
  \o Clause(\A j \in DOMAIN v.levels : v.levels[j] = LevelAt(k, j - 1), "levels", [j \in DOMAIN v.levels |-> LevelAt(k, j - 1)])
  \o Clause(i = 0 /\ x.set /\ x.dep = <<>> => \A j \in DOMAIN v.neg : IF j <= d THEN v.neg[j].k = "v" /\ v.neg[j].v = LevelAt(k, d - j) ELSE IsXOf(v.neg[j], "CitationDepthError"), "levels from the deepest", d)
  \o Clause(v.roots, "root of every citation", "the top")
  \o Clause(v.isroot = (i = 0), "is the root", i = 0)
  \o Clause(v.empty = (k = <<>>), "is empty", k = <<>>)
  \o (IF i = 0 /\ x.set THEN <<>> ELSE Clause(v.name = NodeName(x, i) /\ v.isset = (v.name # <<>>), "name", NodeName(x, i)))
Tree(x, i) == [name |-> NodeName(x, i), kids |-> KidsAt(x.f, i)]
Verdict(sc, x, e) ==
  CASE e.op \in {"build", "add", "assign", "depth"} -> Clause(e.obs.k = "v", e.op, "done")
    [] e.op = "look" -> Clause(e.obs.k = "v", "look", e.at) \o (IF e.obs.k = "v" THEN LookOK(x, e.at, e.obs.v) ELSE <<>>)
    [] e.op = "export" -> LET want == IF e.at = 0 /\ x.set THEN x.f ELSE <<Tree(x, e.at)>> IN
         Clause(e.obs.k = "v" /\ e.obs.v.plain = want /\ e.obs.v.dflt = want, "exported", want) \o Clause(e.obs.k = "v" /\ e.obs.v.back = want, "exported and read again", want)
    [] e.op = "copy" -> Clause(e.obs.k = "v", "copy", e.how) \o (IF e.obs.k = "v" THEN LookOK(x, 0, e.obs.v) ELSE <<>>)
    [] e.op = "eq" -> LET w == Tree(x, e.a) = Tree(x, e.b) /\ ((e.a = 0) = (e.b = 0)) IN Clause(e.obs.k = "v" /\ e.obs.v = <<w, ~w>>, "equal", w)
    [] e.op = "eqtops" -> LET w == [name |-> x.top, kids |-> x.f] = e.other IN Clause(e.obs.k = "v" /\ e.obs.v = <<w, ~w, w>>, "equal", w)
    [] e.op = "refs" -> LET w == SameRef1(e.a, e.b) IN
         Clause(e.obs.k = "v", "compared", w) \o (IF e.obs.k # "v" THEN <<>> ELSE Clause(e.obs.v.eq = w /\ e.obs.v.back = w /\ e.obs.v.ne = ~w, "equal", w) \o Clause(w => e.obs.v.hash, "equal references have one hash", TRUE)
          \o Clause(e.obs.v.a = [s |-> e.a.s, e |-> e.a.e, range |-> e.a.e # <<>>, type |-> e.a.type], "reference", e.a))
    [] e.op = "sets" -> LET w == SameSet(e.a, e.b) IN
         Clause(e.obs.k = "v", "compared", w) \o (IF e.obs.k # "v" THEN <<>> ELSE Clause(e.a.cls = "dts" \/ e.b.cls = "dts" => e.obs.v.eq = w /\ e.obs.v.ne = ~w, "equal", w) \o Clause(w => e.obs.v.hash, "equal sets have one hash", TRUE)
          \o Clause(e.obs.v.len = Len(e.a.refs) /\ e.obs.v.level = e.a.level /\ e.obs.v.cit = e.a.cit, "set", e.a)
          \o Clause(\A i \in DOMAIN e.in : (e.a.cls # "dts" /\ e.in[i].cls = "str") \/ e.obs.v.in[i] = InSet(e.a, e.in[i]), "contained", [i \in DOMAIN e.in |-> InSet(e.a, e.in[i])]))
    [] OTHER -> <<<<"unknown event", e.op>>>>
Step(sc, x, e) ==
  CASE e.op = "build" -> [f |-> e.f, set |-> sc.set, top |-> e.top, dep |-> <<>>]
    [] e.op = "add" -> [x EXCEPT !.f = PutKids(@, e.at, Append(KidsAt(@, e.at), e.n))]
    [] e.op = "assign" -> LET old == KidsAt(x.f, e.at)
        pick(q) == CASE q.k = "old" -> IF q.i \in DOMAIN old THEN <<old[q.i]>> ELSE <<>> [] q.k = "new" -> <<q.n>> [] OTHER -> <<>> IN
        [x EXCEPT !.f = PutKids(@, e.at, ConcatAll([j \in DOMAIN e.items |-> pick(e.items[j])]))]
    [] e.op = "depth" -> [x EXCEPT !.dep = <<e.n>>]
    [] OTHER -> x
Init == s \in 1..Len(Scen) /\ l = 1 /\ st = [f |-> <<>>]
Next == /\ l <= Len(Scen[s].ev)
        /\ LET e == Scen[s].ev[l]
               v == Verdict(Scen[s], st, e)
           IN IF v # <<>> THEN Fail(Scen[s], l, v) ELSE st' = Step(Scen[s], st, e)
        /\ l' = l + 1 /\ s' = s
Spec == Init /\ [][Next]_<<s, l, st>>
=============================================================================
