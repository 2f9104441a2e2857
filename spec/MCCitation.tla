----------------------------- MODULE MCCitation -----------------------------
(* Editing machine over one pattern: rescope / re-xpath; all small patterns.  One scenario per pattern. *)
EXTENDS CtsCitation, Json, Integers
CONSTANTS MaxSteps
VARIABLES p, hist
Ph(q) == [pre |-> "", attr |-> "n", q |-> q, post |-> ""]
Const(t) == [pre |-> t, attr |-> "", q |-> "", post |-> ""]
PredSets == {<<>>, <<Const("@type='text-part'")>>, <<Const("@n='1'")>>, <<Ph("'")>>, <<Ph("\"")>>,
             <<[Ph("'") EXCEPT !.post = " and @type='a_b'"]>>, <<Const("@n=\"1\""), Ph("'")>>}
StepsWith(ps) == {[sep |-> sp, node |-> n, preds |-> x] : sp \in {"/", "//"}, n \in {"tei:div"}, x \in ps}
Steps == StepsWith(PredSets)
Lasts == {x \in Steps : Len(PhOf(x)) = 1}
RECURSIVE Fronts(_)
Fronts(n) == IF n = 0 THEN {<<>>} ELSE Fronts(n - 1) \cup {Append(f, x) : f \in {g \in Fronts(n - 1) : Len(g) = n - 1}, x \in Steps}
Init == \E f \in Fronts(MaxSteps - 1), x \in Lasts : p = Append(f, x) /\ hist = <<>>
Next == /\ Len(hist) < 1
        /\ \/ \E f \in Fronts(1) : p' = SetScope(p, f) /\ hist' = Append(hist, [op |-> "scope", q |-> f])
           \/ \E x \in Lasts : p' = SetXPath(p, <<x>>) /\ hist' = Append(hist, [op |-> "xpath", q |-> <<x>>])
Spec == Init /\ [][Next]_<<p, hist>>
\* --- design properties
Anon(t) == LET q == Split(t, "$") IN Join([i \in DOMAIN q |-> IF i = 1 THEN q[i] ELSE SubSeq(q[i], 2, Len(q[i]))], "?")
Recombine == Scope(p) \o XPath(p) = Anon(Pattern(p))
NoHoles == LET v == [i \in 1..Count(p) |-> <<"x">>] IN ~Has(Fill(p, v), "$") /\ ~Has(Fill(p, v), "?") /\ ~Has(Fill(p, Blanks(Count(p))), "$")
Numbered == \A i \in 1..Count(p) : Occurs(Pattern(p), "$" \o NatStr(i))
Emit == (hist = <<>>) => PrintT("SCN " \o ToJson(p))
============================================================================
