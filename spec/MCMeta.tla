------------------------------- MODULE MCMeta -------------------------------
(* Every history of K changes on two nodes, two keys and four values.                                        *)
EXTENDS Meta, TLC, Json, Naturals
CONSTANTS Depth
VARIABLES G, hist
N == {"urn:a", "urn:b"}
Ks == {K(DC, "title"), K(DCT, "title")}
V == {[kind |-> "str", s |-> "X", lang |-> <<>>, dt |-> <<>>], [kind |-> "uri", s |-> "urn:b", lang |-> <<>>, dt |-> <<>>],
      [kind |-> "lit", s |-> "Y", lang |-> <<"la">>, dt |-> <<>>]}
Langs == {<<>>, <<"en">>}
Do(o) == CASE o.op = "add" -> Add(G, o.n, o.k, ToValue(o.v, o.lang))
           [] o.op = "set" -> Put(G, o.n, o.k, ToValue(o.v, o.lang))
           [] o.op = "remove" -> Remove(G, o.n, o.k, <<>>)
           [] o.op = "unlink" -> Unlink(G, o.n, <<>>, o.k)
Ops == {[op |-> x, n |-> n, k |-> k, v |-> v, lang |-> l] : x \in {"add", "set"}, n \in N, k \in Ks, v \in V, l \in Langs}
   \cup {[op |-> x, n |-> n, k |-> k] : x \in {"remove", "unlink"}, n \in N, k \in {<<>>} \cup {<<y>> : y \in Ks}}
Init == G = {} /\ hist = <<>>
Next == Len(hist) < Depth /\ \E o \in Ops : G' = Do(o) /\ hist' = Append(hist, o)
Spec == Init /\ [][Next]_<<G, hist>>
\* --- design
LastOp == hist[Len(hist)]
SetIsSole == (hist # <<>> /\ LastOp.op = "set") => Vals(G, LastOp.n, LastOp.k) = {ToValue(LastOp.v, LastOp.lang)}
RemovedGone == (hist # <<>> /\ LastOp.op = "remove") => (\A x \in G : x.n # LastOp.n \/ (LastOp.k # <<>> /\ x.k # LastOp.k[1]))
\* a change about one node and key leaves the statements of every other node and key alone
Frame == [][LET o == hist'[Len(hist')] IN o.op \in {"add", "set"} =>
             \A n \in N, k \in Ks : (n # o.n \/ k # o.k) => Vals(G', n, k) = Vals(G, n, k)]_<<G, hist>>
LangKept == \A n \in N, k \in Ks, l \in {<<"en">>, <<"la">>} : ByLang(G, n, k, l) \subseteq SingleSet(G, n, k, l)
Partition == \A n \in N, k \in Ks : LET t == <<<<Term(k)>>>> IN
   Select(G, n, t, <<>>) \cup Select(G, n, <<>>, t) = Select(G, n, <<>>, <<>>) /\ Select(G, n, t, <<>>) \cap Select(G, n, <<>>, t) = {}
Emit == (Len(hist) = Depth) => PrintT("SCN " \o ToJson(hist))
=============================================================================
