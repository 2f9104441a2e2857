------------------------------- MODULE CtsRef -------------------------------
(* CTS passage references:  <id>[@<word>[n]] [ - <id>[@<word>[n]] ]
   A reference is [a |-> single, b |-> <<>> or <<single>>], a single being
   [parts |-> sequence of citation values, sub |-> <<>> or <<text after '@'>>].                       *)
EXTENDS Str, TLC

Single(t) == LET q == Split(t, "@") IN [parts |-> Split(q[1], "."), sub |-> IF Len(q) > 1 THEN <<q[2]>> ELSE <<>>]
Ref(t) == LET q == Split(t, "-") IN [a |-> Single(q[1]), b |-> IF Len(q) > 1 /\ q[2] # "" THEN <<Single(q[2])>> ELSE <<>>]

PrintSingle(x) == Join(x.parts, ".") \o (IF x.sub = <<>> THEN "" ELSE "@" \o x.sub[1])
PrintRef(r) == PrintSingle(r.a) \o (IF r.b = <<>> THEN "" ELSE "-" \o PrintSingle(r.b[1]))

IsRange(r) == r.b # <<>>
Depth1(x) == Len(x.parts)
\* the shallowest end, the start when both ends are as deep
Highest(r) == IF r.b # <<>> /\ Depth1(r.b[1]) < Depth1(r.a) THEN r.b[1] ELSE r.a
Depth(r) == Depth1(Highest(r))

Word(sub) == Before(sub, "[")
Counter(sub) == IF Has(sub, "[") THEN NatVal(Before(Split(sub, "[")[2], "]")) ELSE 0

Up(x) == [x EXCEPT !.parts = SubSeq(x.parts, 1, Len(x.parts) - 1)]
\* <<>> : the reference is at the top of the hierarchy on at least one side
Parent(r) ==
  IF ~IsRange(r) THEN IF Depth1(r.a) = 1 THEN <<>> ELSE <<[r EXCEPT !.a = Up(r.a)]>>
  ELSE IF Depth1(r.a) = 1 \/ Depth1(r.b[1]) = 1 THEN <<>>
  ELSE LET p == Up(r.a)  q == Up(r.b[1]) IN
       IF p = q /\ p.sub = <<>> THEN <<[a |-> p, b |-> <<>>]>> ELSE <<[a |-> p, b |-> <<q>>]>>
=============================================================================
