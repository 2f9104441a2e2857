------------------------------- MODULE MCApi -------------------------------
(* A reader walking through a remote text with failing requests: answers are remembered, a failed request
   teaches nothing and does not move the reader; what is remembered and answered is always true of the text.  *)
EXTENDS CtsApi, Json
CONSTANTS Shapes0, K
VARIABLES shape, x, h, cache, hist, ans
It(d, k, tag, at, tx) == [d |-> d, k |-> k, tag |-> tag, at |-> at, tx |-> tx]
Unit(i, m) == <<It(2, "e", "div", <<<<"n", NatStr(i)>>>>, "")>> \o ConcatAll([j \in 1..m |-> <<It(3, "e", "l", <<<<"n", NatStr(j)>>>>, ""), It(4, "t", "", <<>>, "w")>>])
Doc(q) == <<It(0, "e", "TEI", <<>>, ""), It(1, "e", "text", <<>>, "")>> \o ConcatAll([i \in DOMAIN q |-> Unit(i, q[i])])
St(tag, ph) == [sep |-> "/", tag |-> tag, ca |-> <<>>, ph |-> ph]
Sch == <<<<St("TEI", ""), St("text", ""), St("div", "n")>>, <<St("l", "n")>>>>
S1 == {<<1, 2>>, <<2>>}
S2 == {<<1, 2>>, <<2>>, <<0, 1>>, <<1, 0, 2>>}
Text(q) == [T |-> Doc(q), sch |-> Sch, tab |-> Table(Doc(q), Sch)]
NoCache == [sib |-> <<>>, first |-> <<>>, kids |-> <<>>]   \* <<>> : not asked ; <<v>> : the answer
Init == /\ shape \in Shapes0 /\ x = Text(shape) /\ h \in {Handle("t", <<r>>) : r \in RangeOf(RefsOf(Text(shape).tab[1]))} /\ cache = NoCache
        /\ hist = <<[op |-> "open", ref |-> h.ref, fault |-> 0]>> /\ ans = [k |-> "none"]
Truth(hh, k) == CASE k = "sib" -> SibOf(x, hh.ref) [] k = "first" -> FirstOf(KidsOf(x, hh.ref)) [] OTHER -> KidsOf(x, hh.ref)
Pick(v, which) == CASE which = "nextId" -> v.next [] which = "prevId" -> v.prev [] which = "firstId" -> v [] which = "lastId" -> LastOf(v) [] OTHER -> <<>>
\* one question: at most the f-th request fails
Ask(which, f) ==
  LET k == KeyOf(which)
      fresh == k # "" /\ cache[k] = <<>>
      refused == k = "kids" /\ KidsOf(x, h.ref) = <<>>
      bad == fresh /\ (f = 1 \/ refused)
      c2 == IF fresh /\ ~bad THEN [cache EXCEPT ![k] = <<Truth(h, k)>>] ELSE cache
  IN /\ (f = 1 => fresh)
     /\ cache' = c2 /\ h' = h
     /\ ans' = IF bad THEN [k |-> "x"] ELSE [k |-> "v", which |-> which, v |-> IF which = "parentId" THEN ParentOf(h.ref) ELSE Pick(c2[k][1], which)]
     /\ hist' = Append(hist, [op |-> which, ref |-> <<>>, fault |-> f])
Move(mv, f) ==
  LET which == IdOf(mv)  k == KeyOf(which)
      fresh == k # "" /\ cache[k] = <<>>
      refused == k = "kids" /\ KidsOf(x, h.ref) = <<>>
      bad == fresh /\ (f = 1 \/ refused)
      c2 == IF fresh /\ ~bad THEN [cache EXCEPT ![k] = <<Truth(h, k)>>] ELSE cache
      to == IF bad THEN <<>> ELSE IF which = "parentId" THEN ParentOf(h.ref) ELSE Pick(c2[k][1], which)
      second == IF fresh THEN 2 ELSE 1
      bad2 == to # <<>> /\ f = second
  IN /\ (f # 0 => (f = 1 /\ fresh) \/ bad2)
     /\ IF bad \/ bad2 \/ to = <<>> THEN h' = h /\ cache' = c2 ELSE h' = Handle("t", to) /\ cache' = NoCache
     /\ ans' = IF bad \/ bad2 THEN [k |-> "x"] ELSE [k |-> "v", which |-> mv, v |-> to]
     /\ hist' = Append(hist, [op |-> mv, ref |-> <<>>, fault |-> f])
Next == /\ Len(hist) <= K /\ UNCHANGED <<shape, x>>
        /\ \E f \in 0..2 : (\E w \in {"prevId", "nextId", "firstId", "lastId"} : f < 2 /\ Ask(w, f)) \/ \E m \in {"next", "prev", "first", "last", "parent"} : Move(m, f)
Spec == Init /\ [][Next]_<<shape, x, h, cache, hist, ans>>
\* everything remembered is true
Remembered == \A k \in DOMAIN cache : cache[k] = <<>> \/ cache[k] = <<Truth(h, k)>>
Somewhere == Known(x.tab, Ref(h.ref[1]))
\* an answer is given only when it is true: a question answers about the handle, a move ends where it should
Truthful == ans.k = "v" => IF ans.which \in Ids THEN ans.v = Answer(x, h, ans.which) ELSE ans.v = <<>> \/ h.ref = ans.v
\* moving forth and back
Back == \A m \in {"next", "prev"} : LET d == Dest(x, h, m) IN
   (~IsRange(Ref(h.ref[1])) /\ d # <<>>) => LET b == Dest(x, Handle("t", d), IF m = "next" THEN "prev" ELSE "next") IN SameRef(b, h.ref)
Emit == Len(hist) = K + 1 => PrintT("SCN " \o ToJson([shape |-> shape, hist |-> hist]))
=============================================================================
