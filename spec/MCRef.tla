------------------------------- MODULE MCRef -------------------------------
(* Walk up from every reference over a small alphabet; design invariants; one scenario per reference. *)
EXTENDS CtsRef, Json
CONSTANTS Vals, Words, MaxDepth
VARIABLES r, n
RECURSIVE Tuples(_)
Tuples(k) == IF k = 0 THEN {<<>>} ELSE {Append(t, v) : t \in Tuples(k - 1), v \in Vals}
Singles == {[parts |-> p, sub |-> w] : p \in UNION {Tuples(k) : k \in 1..MaxDepth}, w \in {<<>>} \cup {<<x>> : x \in Words}}
Init == n = 0 /\ \E a \in Singles, b \in {<<>>} \cup {<<x>> : x \in Singles} : r = [a |-> a, b |-> b]
Next == Parent(r) # <<>> /\ r' = Parent(r)[1] /\ n' = n + 1
Spec == Init /\ [][Next]_<<r, n>>
RoundTrip == Ref(PrintRef(r)) = r
HighestIsShallow == /\ Depth(r) <= Depth1(r.a)
                    /\ (IsRange(r) => Depth(r) <= Depth1(r.b[1]))
                    /\ Highest(r) \in {r.a} \cup RangeOf(r.b)
Terminates == n < MaxDepth
ParentUp == [][Depth(r') = Depth(r) - 1 \/ (IsRange(r) /\ ~IsRange(r') /\ Depth(r') < Depth1(r.a))]_<<r, n>>
ParentPrefix == [][StartsWith(Join(r.a.parts, "."), Join(r'.a.parts, "."))]_<<r, n>>
Emit == n = 0 => PrintT("SCN " \o ToJson([t |-> PrintRef(r)]))
============================================================================
