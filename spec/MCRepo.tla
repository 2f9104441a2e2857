------------------------------- MODULE MCRepo -------------------------------
(* Reading folders file by file, in whatever order the file system lists them: the result does not depend on it
   and is what Loaded says; it fails exactly when a file it needs cannot be read (and failures are to be raised). *)
EXTENDS Repo, TLC, Json
CONSTANTS Groups, Works, TextIds, Files
G1 == <<"urn:cts:a:t", "urn:cts:b:t">>
G2 == <<"urn:cts:a:t">>
W1 == <<"w">>
W2 == <<"w", "v">>
VARIABLES repo, rules, strict, pc, f, todo, tgs, wks, R, err
vars == <<repo, rules, strict, pc, f, todo, tgs, wks, R, err>>
Opt(S) == {<<>>} \cup {<<x>> : x \in S}
TextSet(w) == {[id |-> w \o "." \o t, cls |-> "ed", lang |-> <<"lat">>, lab |-> <<>>, file |-> s, cit |-> <<[name |-> "l", pat |-> "p"]>>, doc |-> 1] : t \in TextIds, s \in Files}
WorkSet(g, w) == {[id |-> g \o "." \o w, meta |-> "broken", lang |-> <<"lat">>, lab |-> <<>>, texts |-> <<>>]}
  \cup {[id |-> g \o "." \o w, meta |-> "ok", lang |-> <<"lat">>, lab |-> <<>>, texts |-> t] : t \in Opt(TextSet(g \o "." \o w))}
RECURSIVE Prod(_)
Prod(q) == IF q = <<>> THEN {<<>>} ELSE {a \o b : a \in q[1], b \in Prod(Tail(q))}
GroupSet(g) == {[id |-> g, meta |-> "broken", lab |-> <<>>, works |-> <<>>]}
  \cup {[id |-> g, meta |-> "ok", lab |-> <<>>, works |-> ws] : ws \in Prod([i \in DOMAIN Works |-> Opt(WorkSet(g, Works[i]))])}
Folders == Prod([i \in DOMAIN Groups |-> Opt(GroupSet(Groups[i]))])
RuleSets == {<<[inv |-> "i", kind |-> "all", arg |-> ""]>>,
             <<[inv |-> "i", kind |-> "all", arg |-> ""], [inv |-> "j", kind |-> "folder", arg |-> "2"]>>,
             <<[inv |-> "j", kind |-> "folder", arg |-> "2"]>>}
Init == /\ repo \in {<<a, b>> : a \in Folders, b \in Folders} /\ rules \in RuleSets /\ strict \in BOOLEAN
        /\ pc = "groups" /\ f = 1 /\ todo = DOMAIN repo[1] /\ tgs = <<>> /\ wks = <<>> /\ R = <<>> /\ err = FALSE
\* textgroup files, folder after folder, any order inside a folder
ReadGroup ==
   /\ pc = "groups" /\ ~err /\ todo # {}
   /\ \E i \in todo : /\ todo' = todo \ {i}
        /\ IF repo[f][i].meta = "ok" THEN tgs' = Append(tgs, <<f, i>>) /\ err' = FALSE ELSE tgs' = tgs /\ err' = strict
   /\ UNCHANGED <<repo, rules, strict, pc, f, wks, R>>
NextFolder ==
   /\ pc = "groups" /\ ~err /\ todo = {}
   /\ IF f < Len(repo) THEN f' = f + 1 /\ todo' = DOMAIN repo[f + 1] /\ pc' = pc
      ELSE f' = 1 /\ pc' = "works" /\ todo' = IF tgs = <<>> THEN {} ELSE DOMAIN repo[tgs[1][1]][tgs[1][2]].works
   /\ UNCHANGED <<repo, rules, strict, tgs, wks, R, err>>
\* work files of the f-th group read, in any order
ReadWork ==
   /\ pc = "works" /\ ~err /\ todo # {}
   /\ \E i \in todo : /\ todo' = todo \ {i}
        /\ LET w == repo[tgs[f][1]][tgs[f][2]].works[i] IN IF w.meta = "ok" THEN wks' = Append(wks, <<f, i>>) /\ err' = FALSE ELSE wks' = wks /\ err' = strict
   /\ UNCHANGED <<repo, rules, strict, pc, f, tgs, R>>
NextGroup ==
   /\ pc = "works" /\ ~err /\ todo = {}
   /\ IF f < Len(tgs) THEN f' = f + 1 /\ todo' = DOMAIN repo[tgs[f + 1][1]][tgs[f + 1][2]].works /\ pc' = pc
      ELSE f' = 1 /\ pc' = "dispatch" /\ todo' = {}
   /\ UNCHANGED <<repo, rules, strict, tgs, wks, R, err>>
\* groups dispatched one after the other with the works read for them
Dispatch ==
   /\ pc = "dispatch" /\ ~err /\ f <= Len(tgs)
   /\ LET g == repo[tgs[f][1]][tgs[f][2]]
          mine == SelectSeq(wks, LAMBDA x : x[1] = f)
          h == [g EXCEPT !.works = [k \in DOMAIN mine |-> g.works[mine[k][2]]]]
      IN R' = Arrive(R, h, tgs[f][1], rules)
   /\ f' = f + 1 /\ UNCHANGED <<repo, rules, strict, pc, todo, tgs, wks, err>>
Next == ReadGroup \/ NextFolder \/ ReadWork \/ NextGroup \/ Dispatch
Spec == Init /\ [][Next]_vars
Done == err \/ (pc = "dispatch" /\ f > Len(tgs))
Result == Done => IF err THEN strict /\ Broken(repo) ELSE (strict => ~Broken(repo)) /\ RangeOf(Flat(R)) = RangeOf(Flat(Loaded(repo, rules)))
OneOfEach == LET q == Flat(R) IN \A i, j \in DOMAIN q : i # j => q[i].id # q[j].id
Emit == (pc = "groups" /\ f = 1 /\ tgs = <<>> /\ ~err /\ todo = DOMAIN repo[1]) => PrintT("SCN " \o ToJson([repo |-> repo, rules |-> rules, strict |-> strict]))
=============================================================================
