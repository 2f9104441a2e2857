------------------------------ MODULE MCDtsCite ------------------------------
(* Every forest of citations grown node by node, and every pair of small sets of references. *)
EXTENDS DtsCite, Json
CONSTANTS MaxNodes, Names
VARIABLES f, hist
Opt(n) == IF n = "" THEN <<>> ELSE <<n>>
Init == f = <<>> /\ hist = <<>>
Add == \E i \in 0..Size(f) : \E n \in Names :
  /\ Len(hist) < MaxNodes
  /\ f' = PutKids(f, i, Append(KidsAt(f, i), [name |-> Opt(n), kids |-> <<>>]))
  /\ hist' = Append(hist, [at |-> i, name |-> Opt(n), cut |-> FALSE])
Cut == \E i \in 0..Size(f) : KidsAt(f, i) # <<>> /\ Len(hist) < MaxNodes /\ Len(hist) > 2
  /\ f' = PutKids(f, i, Tail(KidsAt(f, i))) /\ hist' = Append(hist, [at |-> i, name |-> <<>>, cut |-> TRUE])
Next == Add \/ Cut
Spec == Init /\ [][Next]_<<f, hist>>
Bags(q) == [v \in RangeOf(q) |-> Cardinality({i \in DOMAIN q : q[i] = v})]
Levels(g) == ConcatAll([k \in 1..Depth(g) |-> LevelAt(g, k - 1)])
Partition == Bags(Levels(f)) = Bags(Pre(f)) /\ Len(Pre(f)) = Size(f)
NoBeyond == LevelAt(f, Depth(f)) = <<>> /\ \A k \in 0..(Depth(f) - 1) : LevelAt(f, k) # <<>>
Numbering == \A i \in 1..Size(f) : At(f, i).name = Pre(f)[i] /\ PutKids(f, i, KidsAt(f, i)) = f
RoundTrip == Ingest(Json1(f)) = f
Nested == \A i \in 1..Size(f) : Depth(At(f, i).kids) < Depth(f) /\ Size(At(f, i).kids) < Size(f)
\* references and sets: equality is an equivalence; equal sets have the same members
R0 == {[cls |-> c, s |-> s, e |-> e, type |-> t] : c \in {"dts", "base"}, s \in {"1", "2"}, e \in {<<>>, <<"2">>}, t \in {<<>>, <<"x">>}}
R1 == {r \in R0 : r.cls = "dts" \/ r.type = <<>>}
S1 == {[cls |-> "dts", refs |-> q, level |-> n, cit |-> <<>>] : q \in {<<>>} \cup {<<r>> : r \in R1} \cup {<<a, b>> : a \in R1, b \in {x \in R1 : x.s = "1"}}, n \in {1}}
ASSUME \A a, b \in R1 : SameRef1(a, b) <=> a = b
ASSUME \A a, b \in S1 : SameSet(a, b) => \A p \in R1 : InSet(a, p) <=> InSet(b, p)
ASSUME \A a \in S1 : \A p \in R1 : p.cls = "dts" /\ p.e = <<>> /\ InSet(a, p) => InSet(a, [cls |-> "str", s |-> p.s])
Emit == PrintT("SCN " \o ToJson([hist |-> hist]))
=============================================================================
