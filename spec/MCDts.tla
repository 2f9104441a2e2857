------------------------------- MODULE MCDts -------------------------------
(* A client collecting the pages of a list, request by request, any request failing; asked again after a failure.
   Also every URI reference of a route.                                                                          *)
EXTENDS Dts, Json
CONSTANTS MaxPages, MaxSize, MaxFaults
VARIABLES pages, known, at, got, res, log, plan
vars == <<pages, known, at, got, res, log, plan>>
Uri(sch, host, abs, segs, qs) == [sch |-> sch, host |-> host, abs |-> abs, segs |-> segs, qs |-> qs]
Base0 == {Uri("http", "h", TRUE, s, q) : s \in {<<"">>, <<"api">>, <<"api", "dts", "">>, <<"api", "dts">>}, q \in {<<>>, <<<<"v", "1">>>>}}
Refs0 == {Uri(IF h = "" THEN "" ELSE c, h, a, s, q) : c \in {"", "https"}, h \in {"", "k"}, a \in BOOLEAN, s \in {<<>>, <<"nav">>, <<"nav", "">>, <<".", "nav">>, <<"..", "nav">>, <<"..", "..", "..", "x", "..", "nav", ".">>}, q \in {<<>>, <<<<"api", "nav">>>>}}
Refs1 == {r \in Refs0 : (r.host # "" => r.abs) /\ (r.segs # <<>> \/ r.qs # <<>>)}
Ref1(n) == [s |-> NatStr(n), e |-> <<>>, type |-> <<>>, meta |-> <<>>]
RECURSIVE Number(_, _)
Number(sizes, n) == IF sizes = <<>> THEN <<>> ELSE <<[i \in 1..sizes[1] |-> Ref1(n + i)]>> \o Number(Tail(sizes), n + sizes[1])
Init == /\ pages \in {Number(z, 0) : z \in UNION {[1..n -> 0..MaxSize] : n \in 1..MaxPages}}
        /\ known = FALSE /\ at = 0 /\ got = <<>> /\ res = <<>> /\ log = <<>> /\ plan = <<>>
Faults == Len(SelectSeq(plan, LAMBDA p : p = "f"))
\* one request of the running question; at = 0: no question running
Begin == at = 0 /\ Len(res) < 2 /\ at' = 1 /\ got' = <<>> /\ UNCHANGED <<pages, known, res, log, plan>>
Fail1 == at > 0 /\ Faults < MaxFaults /\ plan' = Append(plan, "f") /\ log' = Append(log, IF known THEN at ELSE 0)
         /\ res' = Append(res, [k |-> "x", v |-> <<>>]) /\ at' = 0 /\ got' = <<>> /\ UNCHANGED <<pages, known>>
Enter == at > 0 /\ ~known /\ known' = TRUE /\ plan' = Append(plan, "") /\ log' = Append(log, 0) /\ UNCHANGED <<pages, at, got, res>>
Page == /\ at > 0 /\ known /\ plan' = Append(plan, "") /\ log' = Append(log, at) /\ got' = got \o pages[at]
        /\ IF at = Len(pages) THEN at' = 0 /\ res' = Append(res, [k |-> "v", v |-> got']) ELSE at' = at + 1 /\ res' = res
        /\ UNCHANGED <<pages, known>>
Next == Begin \/ Fail1 \/ Enter \/ Page
Spec == Init /\ [][Next]_vars /\ WF_vars(Begin \/ Enter \/ Page)
\* an answer is the whole list; nothing is kept of a failed question
Whole == \A i \in DOMAIN res : res[i].k = "v" => res[i].v = ConcatAll(pages)
Fresh == at = 1 => got = <<>>
\* the entry point is read with success once, and before anything else
EntryFirst == known => \E i \in DOMAIN log : log[i] = 0 /\ \A j \in 1..(i - 1) : log[j] = 0
NoGap == \A i \in 1..(Len(log) - 1) : log[i + 1] > 1 => log[i] = log[i + 1] - 1
Answers == <>(Len(res) = 2)
\* URI references
Uris == \A b \in Base0 : \A r \in Refs1 :
  LET u == Resolve(b, r) IN
  /\ ~(\E i \in DOMAIN u.segs : u.segs[i] \in {".", ".."})
  /\ Resolve(b, u) = u /\ Resolve(u, r).segs = (IF r.segs = <<>> THEN u.segs ELSE Resolve(u, r).segs)
  /\ (r.host # "" => UriText(u) = UriText(Resolve(Uri("http", "other", TRUE, <<"z">>, <<>>), [r EXCEPT !.sch = u.sch])))
ASSUME Uris
Emit == (Len(res) = 2 /\ at = 0) => PrintT("SCN " \o ToJson([sizes |-> [i \in DOMAIN pages |-> Len(pages[i])], plan |-> plan, ks |-> [i \in DOMAIN res |-> res[i].k]]))
=============================================================================
