------------------------------ MODULE MCDtsColl ------------------------------
(* Every walk of a client through small graphs of collections, any request failing once.  The client keeps the
   pages it read; it is never told of a member twice, nor left with some of them.                              *)
EXTENDS DtsColl, Json
CONSTANTS N, MaxOps, MaxFaults
VARIABLES w, objs, got, log, hist, res
vars == <<w, objs, got, log, hist, res>>
Ids == [i \in 1..N |-> NatStr(i)]
Rec1(i, k) == [id |-> NatStr(i), type |-> IF k = {} THEN "Resource" ELSE "Collection", title |-> "t", desc |-> <<>>, meta |-> <<>>, depth |-> <<>>, cite |-> <<>>, kids |-> [j \in 1..Cardinality(k) |-> NatStr(CHOOSE x \in k : Cardinality({y \in k : y < x}) = j - 1)]]
Graphs == {[i \in 1..N |-> Rec1(i, g[i])] : g \in {f \in [1..N -> SUBSET (2..N)] : \A i \in 1..N : \A j \in f[i] : j > i}}
Init == /\ w \in {[colls |-> g, per |-> p, oneview |-> FALSE] : g \in Graphs, p \in {1, 2}}
        /\ objs = <<>> /\ got = <<>> /\ log = <<>> /\ hist = <<>> /\ res = <<>>
Faults == Cardinality({i \in DOMAIN hist : hist[i].fault > 0})
Side1 == {"children", "parents"}
Note(op, n, nav, f, r) == hist' = Append(hist, [op |-> op, slot |-> n, nav |-> nav, fault |-> f]) /\ res' = Append(res, r)
Err == [k |-> "x", v |-> <<>>]
Val(v) == [k |-> "v", v |-> v]
More == Len(hist) < MaxOps
Get == \E i \in 1..N : More /\ (hist = <<>> \/ i = 1) /\ objs' = Append(objs, FromReply(w, NatStr(i))) /\ got' = Append(got, [children |-> SubSeq(Kids(w, NatStr(i)), 1, MinOf({w.per, Len(Kids(w, NatStr(i)))})), parents |-> <<>>])
          /\ log' = Append(log, <<NatStr(i), "children", 1>>) /\ Note("get", i, "", 0, Val(<<NatStr(i)>>)) /\ w' = w
\* read the pages of one side from the first unknown one; fault f: the f-th request fails
Read == \E n \in DOMAIN objs : \E nav \in Side1 : \E f \in 0..3 :
  LET o == objs[n]  side == SideOf(o, nav)  last == PagesOf(w, o.id, nav)
      from == side.hi + 1  todo == IF side.all THEN 0 ELSE last - side.hi
      s == Side(w, o.id, nav)  upto(p) == SubSeq(s, 1, MinOf({p * w.per, Len(s)})) IN
  /\ More /\ (f > 0 => f <= todo /\ Faults < MaxFaults)
  /\ LET seen == IF f = 0 THEN last ELSE from + f - 2 IN
     /\ objs' = [objs EXCEPT ![n] = PutSide(@, nav, Half(IF side.all THEN side.hi ELSE seen, f = 0))]
     /\ got' = [got EXCEPT ![n][nav] = IF side.all THEN @ ELSE upto(seen)]
     /\ log' = log \o (IF side.all THEN <<>> ELSE [i \in 1..(IF f = 0 THEN todo ELSE f) |-> <<o.id, nav, from + i - 1>>])
     /\ Note("read", n, nav, f, IF f = 0 THEN Val(got'[n][nav]) ELSE Err) /\ w' = w
\* take a member as an object of its own
Take == \E n \in DOMAIN objs : \E nav \in Side1 : \E i \in DOMAIN got[n][nav] :
  More /\ SideOf(objs[n], nav).all /\ objs' = Append(objs, FromMember(w, got[n][nav][i], FALSE)) /\ got' = Append(got, [children |-> <<>>, parents |-> <<>>])
  /\ Note("take", n, nav, 0, Val(<<got[n][nav][i]>>)) /\ UNCHANGED <<w, log>>
Next == Get \/ Read \/ Take
Spec == Init /\ [][Next]_vars
Known1 == \A n \in DOMAIN objs : \A nav \in Side1 : LET h == SideOf(objs[n], nav)  s == Side(w, objs[n].id, nav) IN
  /\ got[n][nav] = SubSeq(s, 1, MinOf({h.hi * w.per, Len(s)}))
  /\ (h.all => got[n][nav] = s) /\ h.hi <= PagesOf(w, objs[n].id, nav)
Answers == \A i \in DOMAIN hist : hist[i].op = "read" /\ res[i].k = "v" => res[i].v = Side(w, objs[hist[i].slot].id, hist[i].nav)
\* children and parents are two views of one relation; nothing is its own descendant
Mirror == \A a, b \in 1..N : (NatStr(b) \in RangeOf(Kids(w, NatStr(a)))) <=> (NatStr(a) \in RangeOf(Pars1(w, NatStr(b))))
Acyclic == \A a \in 1..N : NatStr(a) \notin RangeOf(Descs(w, NatStr(a)))
\* no page is read twice by an object, beyond those which failed
Once == Faults = 0 /\ Len(objs) = 1 => \A i, j \in DOMAIN log : log[i] = log[j] => i = j
Emit == (Len(hist) = MaxOps) => PrintT("SCN " \o ToJson([kids |-> [i \in DOMAIN w.colls |-> w.colls[i].kids], per |-> w.per, hist |-> hist]))
=============================================================================
