----------------------------- MODULE CtsCitation -----------------------------
(* Citation schemes.  A pattern is a sequence of steps
      [sep |-> "/" or "//", node |-> text, preds |-> sequence of predicates]
   a predicate being  [pre, attr, q, post] :  "[" pre "@attr=" q <placeholder> q post "]"   (attr # "")
                                    or        "[" pre "]"                                   (attr = "").
   The same pattern has four textual forms: numbered ($k), anonymous (?), filled, and bare.
   A scheme is a chain of levels, level i citing depth i.                                            *)
EXTENDS Str, TLC

IsPh(p) == p.attr # ""
PhOf(st) == SelectSeq(st.preds, IsPh)
RECURSIVE Count(_)
Count(p) == IF p = <<>> THEN 0 ELSE Len(PhOf(p[1])) + Count(Tail(p))

\* mode "num": $k ; "anon": ? ; "quot": ? with single quotes ; "fill": vals[k]
Hole(pr, k, mode, vals) ==
  CASE mode = "num" -> "@" \o pr.attr \o "=" \o pr.q \o "$" \o NatStr(k) \o pr.q
    [] mode = "anon" -> "@" \o pr.attr \o "=" \o pr.q \o "?" \o pr.q
    [] mode = "fill" -> IF vals[k] = <<>> THEN "@" \o pr.attr
                        ELSE "@" \o pr.attr \o "='" \o vals[k][1] \o "'"
RECURSIVE RPreds(_, _, _, _)
RPreds(ps, k, mode, vals) ==
  IF ps = <<>> THEN "" ELSE
  IF IsPh(ps[1]) THEN "[" \o ps[1].pre \o Hole(ps[1], k, mode, vals) \o ps[1].post \o "]" \o RPreds(Tail(ps), k + 1, mode, vals)
  ELSE "[" \o ps[1].pre \o "]" \o RPreds(Tail(ps), k, mode, vals)
RECURSIVE RSteps(_, _, _, _)
RSteps(p, k, mode, vals) ==
  IF p = <<>> THEN "" ELSE
  p[1].sep \o p[1].node \o RPreds(p[1].preds, k, mode, vals) \o RSteps(Tail(p), k + Len(PhOf(p[1])), mode, vals)

Pattern(p) == RSteps(p, 1, "num", <<>>)
Front(p) == SubSeq(p, 1, Len(p) - 1)
Last(p) == <<p[Len(p)]>>
Scope(p) == RSteps(Front(p), 1, "anon", <<>>)
XPath(p) == RSteps(Last(p), 1, "anon", <<>>)
Blanks(n) == [i \in 1..n |-> <<>>]
Fill(p, vals) == RSteps(p, 1, "fill", vals)
\* the xpath alone, every hole filled with one value (or bare)
FillX(p, v) == RSteps(Last(p), 1, "fill", [i \in 1..Count(Last(p)) |-> v])
RECURSIVE AllPh(_)
AllPh(p) == IF p = <<>> THEN <<>> ELSE PhOf(p[1]) \o AllPh(Tail(p))
Attribute(p) == AllPh(p)[Count(p)].attr
Singled(t) == Replace(t, "\"", "'")

SetScope(p, q) == q \o Last(p)       \* q: new front steps
SetXPath(p, q) == Front(p) \o q      \* q: one new last step

\* ---------------------------------------------------------------- chains of levels
\* a chain is a sequence of [name |-> optional string, pat |-> pattern]; level i is chain[i]
NamesFrom(ch, i) == [j \in 1..(Len(ch) - i + 1) |-> ch[i + j - 1].name]
\* the level matching a reference of depth d, 0 when the scheme is not that deep
Match(ch, d) == IF d \in 1..Len(ch) THEN d ELSE 0
\* index from level i (negative counts from the end): absolute level, 0 when out of range
Index(ch, i, k) == LET n == Len(ch) - i + 1 IN
   IF k >= 0 THEN IF k < n THEN i + k ELSE 0 ELSE IF 0 - k <= n THEN Len(ch) + 1 + k ELSE 0
=============================================================================
