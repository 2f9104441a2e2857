-------------------------------- MODULE Tree --------------------------------
(* XML trees as sequences of items in document order:
     [d |-> depth, k |-> "e"|"t"|"c"|"p", tag, at |-> sequence of <<name, value>> sorted by name, tx |-> text]
   The root is item 1 with d = 0.                                                                        *)
EXTENDS Str

\* last item of the subtree of i (0 stands for the document itself)
RECURSIVE LastFrom(_, _, _)
LastFrom(T, i, j) == IF j > Len(T) THEN Len(T) ELSE IF T[j].d <= T[i].d THEN j - 1 ELSE LastFrom(T, i, j + 1)
Last(T, i) == IF i = 0 THEN Len(T) ELSE LastFrom(T, i, i + 1)
DepthIn(T, i) == IF i = 0 THEN 0 - 1 ELSE T[i].d
\* ancestors (proper) of i
Anc(T, i) == {j \in 1..(i - 1) : T[j].k = "e" /\ T[j].d < T[i].d /\ \A m \in (j + 1)..i : T[m].d > T[j].d}
Attr(x, a) == LET q == SelectSeq(x.at, LAMBDA p : p[1] = a) IN IF q = <<>> THEN <<>> ELSE <<q[1][2]>>

Sub(T, i) == LET q == SubSeq(T, i, Last(T, i)) IN [j \in DOMAIN q |-> [q[j] EXCEPT !.d = q[j].d - T[i].d]]

\* ---------------------------------------------------------------- text of a tree
\* join of text items, runs of two or more spaces become one space
Squeeze(t) ==
  LET q == Split(t, " ")  n == Len(q) IN
  IF n <= 2 THEN t
  ELSE Join(<<q[1]>> \o SelectSeq(SubSeq(q, 2, n - 1), LAMBDA x : x # "") \o <<q[n]>>, " ")
\* text items which are not inside an element named in excl
Texts(T, excl) ==
  LET ok(i) == T[i].k = "t" /\ \A j \in Anc(T, i) : T[j].tag \notin excl
      idx == SelectSeq([i \in 1..Len(T) |-> i], ok)
  IN [i \in DOMAIN idx |-> T[idx[i]].tx]
Plain(T, excl, glue) == Squeeze(Join(Texts(T, excl), glue))
=============================================================================
