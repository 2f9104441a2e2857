------------------------------- MODULE MCUrn -------------------------------
(* Exhaustive design check of CtsUrn for small component alphabets, and generation of edit histories
   (read after every edit) that the driver replays on the real objects.                             *)
EXTENDS CtsUrn, Json
CONSTANTS Names, Refs, MaxEdits
VARIABLES u, hist
Texts == {"urn:cts:" \o n : n \in Names} \cup {"urn:cts:" \o n \o ":" \o t : n \in Names, t \in Names}
   \cup {"urn:cts:n:" \o t \o "." \o w \o x \o r : t \in Names, w \in Names,
                    x \in {"." \o v : v \in Names} \cup {""}, r \in {":" \o r : r \in Refs} \cup {""}}
Init == \E t \in Texts : u = Parse(t) /\ hist = <<[op |-> "parse", t |-> t]>>
Vals(c) == {<<>>} \cup (IF c = "reference" THEN {<<r>> : r \in Refs} ELSE {<<x>> : x \in Names})
Next == Len(hist) <= MaxEdits /\ \E c \in {"textgroup", "work", "version", "reference", "namespace"} :
   \E v \in Vals(c) : /\ (c = "namespace" => v # <<>>)
                      /\ u' = Edit(u, c, v) /\ hist' = Append(hist, [op |-> "set", c |-> c, v |-> v])
Spec == Init /\ [][Next]_<<u, hist>>
\* --- design properties
RoundTrip == WF(u) => Parse(Print_(u)) = u
ParsePrint == Len(hist) = 1 => Print_(Parse(hist[1].t)) = hist[1].t
Prefixes == WF(u) => \A i \in DOMAIN Keys :
    LET r == UpTo(u, Keys[i]) IN
      /\ Keys[i] \notin {"PASSAGE_END"} => (r = <<>> \/ StartsWith(Print_(u), r[1]))
      /\ r # <<>> => Parseable(r[1])
TruncParse == WF(u) =>
    /\ UpTo(u, "WORK") # <<>> => Size(Parse(UpTo(u, "WORK")[1])) = 4
    /\ UpTo(u, "VERSION") # <<>> => Size(Parse(UpTo(u, "VERSION")[1])) = 5
    /\ UpTo(u, "NO_PASSAGE") # <<>> => Parse(UpTo(u, "NO_PASSAGE")[1]) = [u EXCEPT !.reference = <<>>]
    /\ UpTo(u, "TEXTGROUP") # <<>> => Size(Parse(UpTo(u, "TEXTGROUP")[1])) = 3
Emit == (Len(hist) = MaxEdits + 1) => PrintT("SCN " \o ToJson(hist))
============================================================================
