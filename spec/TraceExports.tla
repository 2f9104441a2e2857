---------------------------- MODULE TraceExports ----------------------------
(* Hierarchies (sc.cl) asked for exports, or objects of the library: st.objs what they announce, st.seen what
   they already exported <<object, what, options, content>>, st.world the graph and the texts they are made of. *)
EXTENDS Exports, Trace
VARIABLES s, l, st
Wanted(o, f) == IF f = <<>> THEN o.dflt ELSE f[1]
AskOK(x, e) ==
  LET o == x.objs[e.n + 1]  f == Wanted(o, e.f) IN
  Clause(e.world = x.world, "exporting changes nothing", x.world)
  \o (IF f = "" \/ f \notin RangeOf(o.caps) THEN Clause(IsXOf(e.obs, "NotImplementedError"), "not announced", "NotImplementedError")
      ELSE IF e.obs.k # "v" THEN Clause(FALSE, "announced format", f)
      ELSE Clause(e.obs.v.shape = ShapeOf(f), "form of the export", ShapeOf(f))
           \o LET old == {q \in x.seen : q[1] = e.n /\ q[2] = Same(o.kind, f) /\ q[3] = e.opt}
              IN Clause(\A q \in old : q[4] = e.obs.v.val, "same export as before", old))
Verdict(sc, x, e) ==
  CASE e.op \in {"class", "change"} -> <<>>
    [] e.op = "caps" -> Clause(RangeOf(e.res) = Caps(sc.cl, e.c), "formats announced", Caps(sc.cl, e.c))
    [] e.op = "run" -> LET w == Run(sc.cl, e.c, e.f) IN
         IF w = <<>> THEN Clause(IsXOf(e.obs, "NotImplementedError"), "not announced", "NotImplementedError")
         ELSE Clause(IsV(e.obs, IF w[1].by = 1 THEN [by |-> 1, fmt |-> "", kw |-> <<>>] ELSE [by |-> w[1].by, fmt |-> w[1].fmt, kw |-> e.kw]), "exporter", w)
    [] e.op = "obj" -> Clause(Announced(e.kind) \subseteq RangeOf(e.caps), "formats announced", Announced(e.kind))
         \o Clause(e.dflt = Default(e.kind), "default format", Default(e.kind))
         \o Clause(x.world \in {"", e.world}, "describing changes nothing", x.world)
    [] e.op = "ask" -> AskOK(x, e)
    [] OTHER -> <<<<"unknown event", e.op>>>>
Step(sc, x, e) ==
  CASE e.op = "obj" -> [x EXCEPT !.objs = Append(@, e), !.world = e.world]
    [] e.op = "change" -> [x EXCEPT !.seen = {q \in @ : x.objs[q[1] + 1].kind \in {"text", "cit", "dts"}}, !.world = e.world]
    [] e.op = "ask" -> LET o == x.objs[e.n + 1] IN
         IF e.obs.k = "v" THEN [x EXCEPT !.seen = @ \cup {<<e.n, Same(o.kind, Wanted(o, e.f)), e.opt, e.obs.v.val>>}] ELSE x
    [] OTHER -> x
Init == s \in 1..Len(Scen) /\ l = 1 /\ st = [objs |-> <<>>, seen |-> {}, world |-> ""]
Next == /\ l <= Len(Scen[s].ev)
        /\ LET e == Scen[s].ev[l]
               v == Verdict(Scen[s], st, e)
           IN IF v # <<>> THEN Fail(Scen[s], l, v) ELSE st' = Step(Scen[s], st, e)
        /\ l' = l + 1 /\ s' = s
Spec == Init /\ [][Next]_<<s, l, st>>
=============================================================================
