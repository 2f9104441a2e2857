------------------------------ MODULE TraceUrn ------------------------------
EXTENDS CtsUrn, Trace
VARIABLES s, l, st
None == [live |-> FALSE, u |-> Blank, text |-> ""]

Obs(u, raw, e) ==    \* a full read of the object against the abstract components
  LET o == e.obs IN
  Clause(\A i \in DOMAIN Comps : o.comps[Comps[i]] = u[Comps[i]], "components", u)
  \o Clause(o.size = Size(u), "size", Size(u))
  \o (IF WF(u) THEN
        Clause(o.str = (IF raw # "" THEN raw ELSE Print_(u)), "printed form", Print_(u))
        \o Clause(\A i \in DOMAIN Keys : o.upto[Keys[i]] = UpTo(u, Keys[i]), "truncation",
                  [k \in RangeOf(Keys) |-> UpTo(u, k)])
        \o Clause(o.copy = Print_(u), "copy", Print_(u))
      ELSE \* a component is missing above another: what stands above both is still said
        Clause(\A k \in {"NAMESPACE", "TEXTGROUP"} : o.upto[k] = UpTo(u, k), "truncation above the missing component",
               [k \in {"NAMESPACE", "TEXTGROUP"} |-> UpTo(u, k)]))

Verdict(sc, x, e) ==
  CASE e.op = "parse" -> IF Parseable(e.t) THEN Clause(e.res = "ok", "parse accepted", "ok")
                         ELSE Clause(e.res = "ValueError", "malformed text refused", "ValueError")
    [] e.op = "set" -> Clause(e.res = "ok", "edit accepted", "ok")
    [] e.op = "read" -> Obs(x.u, "", e)
    [] e.op = "cmp" ->
         LET w == Parse(e.t) IN
         Clause(e.gt = (Size(x.u) > Size(w)) /\ e.lt = (Size(x.u) < Size(w)), "size order", <<Size(x.u), Size(w)>>)
         \o (IF WF(x.u) THEN Clause(e.eq = (Print_(x.u) = Print_(w)) /\ e.ne = (Print_(x.u) # Print_(w)), "equality", Print_(w)) ELSE <<>>)
         \o Clause(e.eqstr = FALSE, "a string is not a URN", FALSE)
    [] OTHER -> <<<<"unknown event", e.op>>>>

Step(x, e) ==
  CASE e.op = "parse" -> IF Parseable(e.t) THEN [live |-> TRUE, u |-> Parse(e.t)] ELSE x
    [] e.op = "set" -> [x EXCEPT !.u = Edit(x.u, e.c, e.v)]
    [] OTHER -> x

Init == s \in 1..Len(Scen) /\ l = 1 /\ st = [live |-> FALSE, u |-> Blank]
Next == /\ l <= Len(Scen[s].ev)
        /\ LET e == Scen[s].ev[l]
               v == Verdict(Scen[s], st, e)
           IN IF v # <<>> THEN Fail(Scen[s], l, v) ELSE st' = Step(st, e)
        /\ l' = l + 1 /\ s' = s
Spec == Init /\ [][Next]_<<s, l, st>>
=============================================================================
