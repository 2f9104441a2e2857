------------------------------- MODULE Trace -------------------------------
(* Common shape of every trace specification: one behaviour per scenario, `l` the next event, `st` the
   abstract state.  A specification instantiating this idea defines
       InitState(sc)        abstract state at the start of scenario sc
       Verdict(sc, st, e)   sequence of failed clauses, <<>> when event e is allowed in st
       Step(sc, st, e)      successor state                                                           *)
EXTENDS Naturals, Sequences, TLC, Json, IOUtils
Scen == ndJsonDeserialize(IOEnv.TRACE)
Fail(sc, l, v) == PrintT("MISMATCH " \o ToJson([id |-> sc.id, l |-> l, clause |-> v[1][1], exp |-> v[1][2]])) /\ FALSE
\* clause helpers: a clause is <<name, expected>>
Clause(ok, name, expected) == IF ok THEN <<>> ELSE <<<<name, expected>>>>
IsV(o, v) == o.k = "v" /\ o.v = v
IsX(o) == o.k = "x"
IsXOf(o, c) == o.k = "x" /\ \E i \in DOMAIN o.v : o.v[i] = c
============================================================================
