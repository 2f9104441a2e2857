-------------------------------- MODULE Str --------------------------------
(* Strings as sequences of characters (TLC evaluates Len/SubSeq/\o on strings). *)
EXTENDS Naturals, Sequences, FiniteSets

Ch(s, i) == SubSeq(s, i, i)

RECURSIVE FindFrom(_, _, _)
FindFrom(s, c, i) == IF i > Len(s) THEN 0 ELSE IF Ch(s, i) = c THEN i ELSE FindFrom(s, c, i + 1)
Find(s, c) == FindFrom(s, c, 1)
Has(s, c) == Find(s, c) > 0

RECURSIVE Split(_, _)
Split(s, c) ==
  LET k == Find(s, c) IN
  IF k = 0 THEN <<s>> ELSE <<SubSeq(s, 1, k - 1)>> \o Split(SubSeq(s, k + 1, Len(s)), c)

RECURSIVE Join(_, _)
Join(q, c) == IF q = <<>> THEN "" ELSE IF Len(q) = 1 THEN q[1] ELSE q[1] \o c \o Join(Tail(q), c)

Before(s, c) == Split(s, c)[1]
StartsWith(s, p) == Len(s) >= Len(p) /\ SubSeq(s, 1, Len(p)) = p
EndsWith(s, p) == Len(s) >= Len(p) /\ SubSeq(s, Len(s) - Len(p) + 1, Len(s)) = p

\* does substring p occur in s (p non-empty)
Occurs(s, p) == \E i \in 1..(Len(s) - Len(p) + 1) : SubSeq(s, i, i + Len(p) - 1) = p

Digits == <<"0", "1", "2", "3", "4", "5", "6", "7", "8", "9">>
IsDigit(c) == \E i \in 1..10 : Digits[i] = c
DigitVal(c) == (CHOOSE i \in 1..10 : Digits[i] = c) - 1
RECURSIVE NatVal(_)
NatVal(s) == IF s = "" THEN 0 ELSE NatVal(SubSeq(s, 1, Len(s) - 1)) * 10 + DigitVal(Ch(s, Len(s)))
RECURSIVE NatStr(_)
NatStr(n) == IF n < 10 THEN Digits[n + 1] ELSE NatStr(n \div 10) \o Digits[(n % 10) + 1]

\* replace every occurrence of character c by string r
RECURSIVE Replace(_, _, _)
Replace(s, c, r) ==
  LET k == Find(s, c) IN
  IF k = 0 THEN s ELSE SubSeq(s, 1, k - 1) \o r \o Replace(SubSeq(s, k + 1, Len(s)), c, r)

\* sequences
RECURSIVE ConcatAll(_)
ConcatAll(qq) == IF qq = <<>> THEN <<>> ELSE qq[1] \o ConcatAll(Tail(qq))
MapSeq(f(_), q) == [i \in DOMAIN q |-> f(q[i])]
RangeOf(q) == {q[i] : i \in DOMAIN q}
IndexIn(q, x) == IF \E i \in DOMAIN q : q[i] = x THEN CHOOSE i \in DOMAIN q : q[i] = x /\ \A j \in 1..(i - 1) : q[j] # x ELSE 0
MinOf(S) == CHOOSE x \in S : \A y \in S : x <= y
MaxOf(S) == CHOOSE x \in S : \A y \in S : x >= y
RECURSIVE Dedup(_)
Dedup(q) == IF q = <<>> THEN <<>> ELSE
  LET r == Dedup(SubSeq(q, 1, Len(q) - 1)) IN IF q[Len(q)] \in RangeOf(r) THEN r ELSE Append(r, q[Len(q)])
============================================================================
