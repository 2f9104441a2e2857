------------------------------- MODULE CtsText -------------------------------
(* A citable text: a tree and a citation scheme.  The scheme is a sequence of levels, each a sequence of steps
   relative to the previous level (to the document for the first):
      [sep |-> "/" | "//", tag, ca |-> <<>> | <<name, value>>, ph |-> "" | name of the citing attribute]
   exactly the last step of a level has ph # "".
   A unit of depth k is [node, parts]: parts = the values met on the way.  References are sequences of values.  *)
EXTENDS Tree, CtsRef, Integers

Sat(x, st) == /\ x.k = "e" /\ x.tag = st.tag
              /\ (st.ca = <<>> \/ Attr(x, st.ca[1]) = <<st.ca[2]>>)
              /\ (st.ph = "" \/ Attr(x, st.ph) # <<>>)
\* nodes reached from i by one step, in document order
Reach(T, i, st) ==
  SelectSeq([j \in 1..(Last(T, i) - i) |-> i + j],
            LAMBDA j : Sat(T[j], st) /\ (st.sep = "//" \/ T[j].d = DepthIn(T, i) + 1))
RECURSIVE Walk(_, _, _)
Walk(T, is, steps) ==
  IF steps = <<>> THEN is
  ELSE Walk(T, ConcatAll([k \in DOMAIN is |-> Reach(T, is[k], steps[1])]), Tail(steps))
UnitsUnder(T, level, u) ==
  LET is == Walk(T, <<u.node>>, level)  ph == level[Len(level)].ph
  IN [k \in DOMAIN is |-> [node |-> is[k], parts |-> Append(u.parts, Attr(T[is[k]], ph)[1])]]
RECURSIVE UnitsAt(_, _, _)
UnitsAt(T, scheme, k) ==
  LET up == IF k = 1 THEN <<[node |-> 0, parts |-> <<>>]>> ELSE UnitsAt(T, scheme, k - 1)
  IN ConcatAll([i \in DOMAIN up |-> UnitsUnder(T, scheme[k], up[i])])

\* table of all units by level
Table(T, scheme) == [k \in DOMAIN scheme |-> UnitsAt(T, scheme, k)]
RefsOf(us) == [i \in DOMAIN us |-> Join(us[i].parts, ".")]
NodeOf(tab, parts) ==
  IF Len(parts) \notin DOMAIN tab THEN 0
  ELSE LET us == SelectSeq(tab[Len(parts)], LAMBDA u : u.parts = parts) IN IF us = <<>> THEN 0 ELSE us[1].node

EndOf(r) == IF r.b = <<>> THEN r.a ELSE r.b[1]
Known(tab, r) == NodeOf(tab, r.a.parts) # 0 /\ NodeOf(tab, EndOf(r).parts) # 0
\* start before end, neither containing the other
WellFormed(T, tab, r) ==
  LET a == NodeOf(tab, r.a.parts)  b == NodeOf(tab, EndOf(r).parts) IN
  ~IsRange(r) \/ a = b \/ Last(T, a) < b

\* ---------------------------------------------------------------- passages
\* items of the passage: everything from the start to the end of the end, with the ancestors of the start
Kept(T, a, b) == Anc(T, a) \cup (a..Last(T, b))
Bare(T, a, b) == Anc(T, a) \cup Anc(T, b)        \* elements rebuilt around the limits
\* uncited text standing directly in a rebuilt element, between the limits: free
Loose(T, a, b) ==
  {j \in a..Last(T, b) : T[j].k = "t" /\ \E i \in Bare(T, a, b) : T[i].d = T[j].d - 1 /\ i < j /\ j <= Last(T, i)}
PassageOf(T, a, b) ==
  LET keep == Kept(T, a, b) \ Loose(T, a, b)
      idx == SelectSeq([i \in 1..Len(T) |-> i], LAMBDA j : j \in keep)
  IN [k \in DOMAIN idx |-> T[idx[k]]]
PassageOK(T, a, b, o) ==
  LET loose == {T[j].tx : j \in Loose(T, a, b)}
  IN SelectSeq(o, LAMBDA x : ~(x.k = "t" /\ x.tx \in loose)) = PassageOf(T, a, b)

\* ---------------------------------------------------------------- available references
Common(p, q) == LET S == {k \in 0..Len(p) : k <= Len(q) /\ SubSeq(p, 1, k) = SubSeq(q, 1, k)} IN SubSeq(p, 1, MaxOf(S))
\* effective level of a request: lv 0.. (a single reference always asks below itself)
Level(r, lv) ==
  IF r = <<>> THEN lv
  ELSE LET x == r[1] IN
    IF ~IsRange(x) THEN IF lv <= Len(x.a.parts) THEN Len(x.a.parts) + 1 ELSE lv
    ELSE LET c == Len(Common(x.a.parts, x.b[1].parts))
             w == IF lv = 1 THEN Len(x.a.parts) + 1 ELSE IF lv = 0 THEN Len(x.a.parts) ELSE lv
         IN IF w <= c THEN c + 1 ELSE w
\* units of that level present in the (whole text / unit / range)
Available(T, tab, r, lv) ==
  IF r = <<>> THEN tab[lv]
  ELSE LET x == r[1]  a == NodeOf(tab, x.a.parts)  b == NodeOf(tab, EndOf(x).parts)
           in(u) == IF IsRange(x) THEN u.node \in Kept(T, a, b) /\ SubSeq(u.parts, 1, Len(Common(x.a.parts, x.b[1].parts))) = Common(x.a.parts, x.b[1].parts)
                    ELSE SubSeq(u.parts, 1, Len(x.a.parts)) = x.a.parts
       IN SelectSeq(tab[lv], in)

\* ---------------------------------------------------------------- neighbours
Span(us, i, j) == IF i > j THEN <<>> ELSE IF i = j THEN <<Join(us[i].parts, ".")>> ELSE <<Join(us[i].parts, ".") \o "-" \o Join(us[j].parts, ".")>>
\* a window of n units before/after, cut at the edges; a window over one unit may be written x or x-x
Sibling(tab, r) ==
  LET us == tab[Len(r.a.parts)]
      rs == [k \in DOMAIN us |-> us[k].parts]
      i == IndexIn(rs, r.a.parts)  j == IndexIn(rs, EndOf(r).parts)  n == j - i + 1
      lo == IF i - n < 1 THEN 1 ELSE i - n
      hi == IF j + n > Len(us) THEN Len(us) ELSE j + n
  IN [prev |-> Span(us, lo, i - 1), next |-> Span(us, j + 1, hi)]
\* equality of an observed reference with an expected one, modulo x = x-x
Canon(t) == LET r == Ref(t) IN IF IsRange(r) /\ r.a = r.b[1] THEN PrintSingle(r.a) ELSE t
SameRef(o, e) == Len(o) = Len(e) /\ (o = <<>> \/ Canon(o[1]) = Canon(e[1]))
=============================================================================
