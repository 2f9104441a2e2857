------------------------------- MODULE MCText -------------------------------
(* A reader in a small text: every shape of up to MaxUnits units of up to MaxLeaves leaves, every reference,
   every walk of K moves.  Checks that passages, available references and neighbours fit together.          *)
EXTENDS CtsText, Json
CONSTANTS MaxUnits, MaxLeaves, K
VARIABLES shape, cur, hist, T, Tab

RECURSIVE Shapes(_)
Shapes(n) == IF n = 0 THEN {<<>>} ELSE {Append(q, k) : q \in Shapes(n - 1), k \in 0..MaxLeaves}
AllShapes == {q \in UNION {Shapes(n) : n \in 1..MaxUnits} : \E i \in DOMAIN q : q[i] > 0}

It(d, k, tag, at, tx) == [d |-> d, k |-> k, tag |-> tag, at |-> at, tx |-> tx]
Leaf(i, j) == <<It(3, "e", "l", <<<<"n", NatStr(j)>>>>, ""), It(4, "t", "", <<>>, "w" \o NatStr(i) \o NatStr(j)), It(3, "t", "", <<>>, "u" \o NatStr(i) \o NatStr(j))>>
Unit(i, m) == <<It(2, "e", "div", <<<<"n", NatStr(i)>>>>, ""), It(3, "e", "head", <<>>, ""), It(4, "t", "", <<>>, "h" \o NatStr(i))>>
              \o ConcatAll([j \in 1..m |-> Leaf(i, j)])
Doc(q) == <<It(0, "e", "TEI", <<>>, ""), It(1, "e", "text", <<>>, "")>> \o ConcatAll([i \in DOMAIN q |-> Unit(i, q[i])])
St(tag, ph) == [sep |-> "/", tag |-> tag, ca |-> <<>>, ph |-> ph]
Sch == <<<<St("TEI", ""), St("text", ""), St("div", "n")>>, <<St("l", "n")>>>>

Singles(tab) == RangeOf(RefsOf(tab[1])) \cup RangeOf(RefsOf(tab[2]))
Starts(t, tab) == LET ss == Singles(tab) IN
   {Ref(x) : x \in ss} \cup {r \in {[a |-> Single(x), b |-> <<Single(y)>>] : x, y \in ss} : r.a # r.b[1] /\ WellFormed(t, tab, r)}

Kids(tab, r) == RefsOf(Available(T, tab, <<r>>, 2))
Dest(tab, r, mv) ==
  LET sib == Sibling(tab, r) IN
  CASE mv = "next" -> sib.next [] mv = "prev" -> sib.prev
    [] mv = "first" -> IF Len(r.a.parts) = 2 \/ Kids(tab, r) = <<>> THEN <<>> ELSE <<Kids(tab, r)[1]>>
    [] OTHER -> IF Len(r.a.parts) = 2 \/ Kids(tab, r) = <<>> THEN <<>> ELSE <<Kids(tab, r)[Len(Kids(tab, r))]>>
Moves == {"next", "prev", "first", "last"}
Level1(r) == Len(r.a.parts) = Len(EndOf(r).parts)

Init == shape \in AllShapes /\ T = Doc(shape) /\ Tab = Table(T, Sch) /\ cur \in Starts(T, Tab) /\ hist = <<[mv |-> "start", ref |-> PrintRef(cur)]>>
Next == /\ Len(hist) <= K /\ Level1(cur)
        /\ \E mv \in Moves : LET d == Dest(Tab, cur, mv) IN
             /\ cur' = IF d = <<>> THEN cur ELSE Ref(d[1])
             /\ hist' = Append(hist, [mv |-> mv, ref |-> PrintRef(cur')])
        /\ UNCHANGED <<shape, T, Tab>>
Spec == Init /\ [][Next]_<<shape, cur, hist, T, Tab>>

A == NodeOf(Tab, cur.a.parts)
Z == NodeOf(Tab, EndOf(cur).parts)
Leaves == SelectSeq(Tab[2], LAMBDA u : u.node \in A..Last(T, Z))
TypeOK == Known(Tab, cur) /\ WellFormed(T, Tab, cur)
\* the passage holds the text of exactly the leaves between its limits (and headings met on the way)
PassageText ==
  LET P == PassageOf(T, A, Z)
      ws == SelectSeq(Texts(P, {}), LAMBDA x : Ch(x, 1) = "w")
  IN ws = [i \in DOMAIN Leaves |-> "w" \o Leaves[i].parts[1] \o Leaves[i].parts[2]]
\* the passage is a tree around its limits: same root, and every item's parent is present
PassageTree ==
  LET P == PassageOf(T, A, Z) IN P[1] = T[1] /\ \A i \in 2..Len(P) : Anc(P, i) # {} /\ P[MaxOf(Anc(P, i))].d = P[i].d - 1
\* asking the leaves of a range or of a unit gives the leaves of the passage
ReffsAgree == Len(cur.a.parts) = 1 \/ IsRange(cur) =>
  RefsOf(Available(T, Tab, <<cur>>, 2)) = RefsOf(Leaves)
\* windows touch the reference on both sides and do not overlap it
Adjacent ==
  Level1(cur) =>
  LET us == RefsOf(Tab[Len(cur.a.parts)])  sib == Sibling(Tab, cur)
      i == IndexIn(us, Join(cur.a.parts, "."))  j == IndexIn(us, Join(EndOf(cur).parts, "."))
  IN /\ (sib.prev = <<>>) <=> (i = 1)
     /\ (sib.next = <<>>) <=> (j = Len(us))
     /\ sib.prev # <<>> => Join(EndOf(Ref(sib.prev[1])).parts, ".") = us[i - 1]
     /\ sib.next # <<>> => Join(Ref(sib.next[1]).a.parts, ".") = us[j + 1]
\* a full window forth then back returns
Back == Level1(cur) =>
  LET sib == Sibling(Tab, cur)  n(r) == IndexIn(RefsOf(Tab[Len(r.a.parts)]), Join(EndOf(r).parts, ".")) - IndexIn(RefsOf(Tab[Len(r.a.parts)]), Join(r.a.parts, "."))
  IN sib.next # <<>> => LET y == Ref(sib.next[1]) IN n(y) = n(cur) => Sibling(Tab, y).prev = <<PrintRef(cur)>>
Emit == (Len(hist) = K + 1 \/ ~Level1(cur)) => PrintT("SCN " \o ToJson([shape |-> shape, start |-> hist[1].ref, moves |-> [i \in 1..(Len(hist) - 1) |-> hist[i + 1].mv]]))
=============================================================================
