----------------------------- MODULE MCDispatch -----------------------------
(* Two inventories, every list of up to MaxRules rules after the default, every collection.                  *)
EXTENDS Coll, TLC, Json
CONSTANTS MaxRules
VARIABLES h, hist, rules
Root == <<Obj("ic", "ic", <<>>, <<>>), Obj("inv", "i1", <<>>, <<>>), Obj("inv", "i2", <<>>, <<>>), Obj("inv", "i3", <<>>, <<>>)>>
News == <<[op |-> "new", cls |-> "ic", id |-> "ic", par |-> 0], [op |-> "new", cls |-> "inv", id |-> "i1", par |-> 1],
          [op |-> "new", cls |-> "inv", id |-> "i2", par |-> 1], [op |-> "new", cls |-> "inv", id |-> "i3", par |-> 1]>>
Inv == {"i1", "i2", "i3"}
Colls == {"urn:cts:a:x", "urn:cts:b:x"}
Rules == {[inv |-> i, kind |-> k, arg |-> IF k = "prefix" THEN "urn:cts:a" ELSE ""] : i \in Inv, k \in {"all", "prefix", "never", "truthy"}}
RECURSIVE Lists(_)
Lists(n) == IF n = 0 THEN {<<>>} ELSE LET q == Lists(n - 1) IN q \cup {Append(x, r) : x \in q, r \in Rules}
Init == /\ h = SetParent(SetParent(SetParent(Root, 2, 1), 3, 1), 4, 1)
        /\ \E i \in Inv, q \in Lists(MaxRules) : rules = <<[inv |-> i, kind |-> "all", arg |-> ""]>> \o q
        /\ hist = News
Next == Len(h) = 4 /\ \E c \in Colls :
        /\ h' = Dispatched(Append(h, Obj("tg", c, <<>>, <<>>)), 1, rules, 5, "p/a")
        /\ hist' = hist \o <<[op |-> "new", cls |-> "tg", id |-> c, par |-> 0], [op |-> "dispatch", root |-> 1, rules |-> rules, c |-> 5, path |-> "p/a"]>>
        /\ rules' = rules
Spec == Init /\ [][Next]_<<h, hist, rules>>
\* in exactly one inventory: that of the last accepting rule, the default when no other accepts
Once == Len(h) = 5 => Cardinality({p \in 2..4 : 5 \in RangeOf(h[p].kids)}) = 1
Wins == Len(h) = 5 => LET ks == {k \in DOMAIN rules : Accepts(rules[k], h, 5, "p/a")} IN h[h[5].par].id = rules[MaxOf(ks)].inv
Emit == (Len(h) = 5) => PrintT("SCN " \o ToJson(hist))
=============================================================================
