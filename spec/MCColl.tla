------------------------------- MODULE MCColl -------------------------------
(* Histories of K changes over generic collections with few identifiers.                                     *)
EXTENDS Coll, TLC, Json
CONSTANTS Ids, K, MaxObj
VARIABLES h, hist, dead
Fresh(id) == Obj("coll", id, <<>>, <<>>)
Init == h = <<>> /\ hist = <<>> /\ dead = {}
Free == {i \in DOMAIN h : h[i].par = 0 /\ i \notin dead}
Next ==
  /\ Len(hist) < K
  /\ \/ /\ Len(h) < MaxObj
        /\ \E id \in Ids, p \in {0} \cup (DOMAIN h \ dead) :
             /\ h' = (LET g == Append(h, Fresh(id)) IN IF p = 0 THEN g ELSE SetParent(g, Len(g), p))
             /\ hist' = Append(hist, [op |-> "new", cls |-> "coll", id |-> id, par |-> p]) /\ dead' = dead
     \/ \E c \in Free, p \in DOMAIN h \ dead : /\ c # p /\ c \notin RangeOf(Parents(h, p))
             /\ h' = SetParent(h, c, p) /\ hist' = Append(hist, [op |-> "setpar", c |-> c, p |-> p]) /\ dead' = dead
     \/ \E o \in DOMAIN h, key \in Ids : LET i == Lookup(h, o, key) IN
             /\ i # 0 /\ (IF h[i].par = 0 THEN TRUE ELSE i \in RangeOf(h[h[i].par].kids)) /\ h' = Delete(h, i) /\ hist' = Append(hist, [op |-> "del", o |-> o, key |-> key]) /\ dead' = dead \cup {i}
Spec == Init /\ [][Next]_<<h, hist, dead>>
\* --- design
OnePerId == \A p \in DOMAIN h : \A a, b \in DOMAIN h[p].kids : a # b => h[h[p].kids[a]].id # h[h[p].kids[b]].id
ChildHasParent == \A p \in DOMAIN h : \A c \in RangeOf(h[p].kids) : h[c].par = p
ParentHasId == \A c \in DOMAIN h : (h[c].par # 0 /\ c \notin dead) =>
   (ChildPos(h, h[c].par, h[c].id) # 0 \/ \E d \in dead : h[d].id = h[c].id)
DescAncestors == \A i \in DOMAIN h : \A j \in RangeOf(Desc(h, i)) : i \in RangeOf(Parents(h, j))
LookupSound == \A i \in DOMAIN h, key \in Ids : LET r == Lookup(h, i, key) IN
   (r = 0 <=> \A j \in {i} \cup RangeOf(Desc(h, i)) : h[j].id # key) /\ (r # 0 => h[r].id = key)
DeletedGone == \A d \in dead : \A p \in DOMAIN h : d \notin RangeOf(h[p].kids)
Emit == (Len(hist) = K) => PrintT("SCN " \o ToJson(hist))
=============================================================================
