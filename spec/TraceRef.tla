------------------------------ MODULE TraceRef ------------------------------
EXTENDS CtsRef, Trace
VARIABLES s, l, st

OSingle(x, o) ==
  /\ o.text = PrintSingle(x) /\ o.list = x.parts /\ o.depth = Len(x.parts) /\ o.len = Len(x.parts)
  /\ IF x.sub = <<>> THEN o.sub = <<>>
     ELSE Len(o.sub) = 1 /\ o.sub[1].text = "@" \o x.sub[1]
          /\ (~Has(x.sub[1], ".") => o.sub[1].word = Word(x.sub[1]) /\ o.sub[1].n = Counter(x.sub[1]))

ORef(r, o) ==
  Clause(o.str = PrintRef(r), "printed form", PrintRef(r))
  \o Clause(OSingle(r.a, o.start), "start", r.a)
  \o Clause(IF IsRange(r) THEN Len(o.end) = 1 /\ OSingle(r.b[1], o.end[1]) ELSE o.end = <<>>, "end", r.b)
  \o Clause(o.range = IsRange(r), "range flag", IsRange(r))
  \o Clause(o.highest = PrintSingle(Highest(r)), "highest end", PrintSingle(Highest(r)))
  \o Clause(o.depth = Depth(r), "depth", Depth(r))
  \o Clause(o.parent = (IF Parent(r) = <<>> THEN <<>> ELSE <<PrintRef(Parent(r)[1])>>), "parent", Parent(r))
  \o Clause(o.parenteq, "parent is the reference its text denotes", TRUE)
  \o Clause(IF IsRange(r) THEN o.sub = <<>> ELSE o.sub = (IF r.a.sub = <<>> THEN <<>> ELSE <<"@" \o r.a.sub[1]>>), "subreference", r.a.sub)
  \o Clause(Len(o.copies) = 3 /\ \A i \in DOMAIN o.copies : o.copies[i].str = PrintRef(r) /\ o.copies[i].eq /\ o.copies[i].hash, "copies", PrintRef(r))

Verdict(sc, x, e) ==
  CASE e.op = "read" -> ORef(Ref(e.t), e.obs)
    [] e.op = "same" -> \* the same reference built another way
         Clause(e.eq = (Ref(e.t) = Ref(e.u)) /\ e.ne = ~e.eq /\ (e.eq => e.hash), "equality", Ref(e.t) = Ref(e.u))
    [] e.op = "text" -> Clause(e.eq = FALSE, "text is not a reference", FALSE)
    [] e.op = "set" ->
         LET want == [i \in DOMAIN e.members |-> Ref(e.members[i])]
             k == IndexIn(want, Ref(e.q))
         IN Clause(e.str = e.members, "members in order", e.members)
            \o Clause(e.in_str = (k # 0) /\ e.in_ref = (k # 0), "membership", k # 0)
            \o Clause(e.idx_str = k /\ e.idx_ref = k, "position", k)
            \o Clause(e.level = e.lv /\ e.cit, "level and citation", e.lv)
    [] OTHER -> <<<<"unknown event", e.op>>>>

Init == s \in 1..Len(Scen) /\ l = 1 /\ st = 0
Next == /\ l <= Len(Scen[s].ev)
        /\ LET e == Scen[s].ev[l]
               v == Verdict(Scen[s], st, e)
           IN IF v # <<>> THEN Fail(Scen[s], l, v) ELSE st' = st
        /\ l' = l + 1 /\ s' = s
Spec == Init /\ [][Next]_<<s, l, st>>
=============================================================================
