------------------------------- MODULE Exports -------------------------------
(* Who exports what.  A class hierarchy cl is an array of classes
     [own  : <<>> or <<formats>>      formats the class announces itself (EXPORT_TO)
      dflt : <<>> or <<format or "">> default format it declares ("" : none)
      impl : whether it has an exporter of its own
      mro  : its method resolution order (indices, itself first, the base last)]
   whose first class is the base of all exportable objects.                                              *)
EXTENDS Str
FirstIn(q, P(_)) == LET js == {j \in DOMAIN q : P(q[j])} IN IF js = {} THEN 0 ELSE q[CHOOSE j \in js : \A k \in js : j <= k]
\* formats a class announces, by itself or because it inherits them
Eff(cl, c) == LET k == FirstIn(cl[c].mro, LAMBDA i : cl[i].own # <<>>) IN IF k = 0 THEN {} ELSE RangeOf(cl[k].own[1])
Dflt(cl, c) == LET k == FirstIn(cl[c].mro, LAMBDA i : cl[i].dflt # <<>>) IN IF k = 0 THEN "" ELSE cl[k].dflt[1]
Caps(cl, c) == UNION {Eff(cl, i) : i \in RangeOf(cl[c].mro)}
\* the class in charge of a format is the most specific one announcing it; its exporter is its own or the one it inherits
Charge(cl, c, f) == FirstIn(cl[c].mro, LAMBDA i : f \in Eff(cl, i))
Exporter(cl, i) == FirstIn(cl[i].mro, LAMBDA k : cl[k].impl)
\* asked for a format option f: <<class whose exporter runs, format>> or nothing (not implemented)
Asked(cl, c, f) == IF f = <<>> THEN Dflt(cl, c) ELSE f[1]
Run(cl, c, f) == LET g == Asked(cl, c, f) IN
  IF g = "" \/ g \notin Caps(cl, c) THEN <<>> ELSE <<[by |-> Exporter(cl, Charge(cl, c, g)), fmt |-> g]>>

\* ---- the objects of the library: what they announce at least, and what the exports are
Coll_ == {"ld", "dts", "rdf"}
Cts_ == Coll_ \cup {"cts", "cap", "etree"}
Text_ == {"xml", "tei", "dict", "etree", "text"}
Announced(kind) ==
  CASE kind = "meta" -> {"json", "rdf", "ld", "cap"}
    [] kind = "coll" -> Coll_
    [] kind = "cts" -> Cts_
    [] kind = "cit" -> {"dts", "cts", "tei"}
    [] kind = "dts" -> {"dts"}
    [] kind = "text" -> Text_
    [] OTHER -> {}
Default(kind) == CASE kind = "meta" -> "json" [] kind = "cts" -> "etree" [] kind = "cit" -> "cts" [] kind = "text" -> "text" [] OTHER -> ""
ShapeOf(f) ==
  CASE f \in {"json", "dts"} -> "json"
    [] f = "ld" -> "ld"
    [] f = "rdf" -> "rdf"
    [] f \in {"xml", "tei", "cts", "cap"} -> "xml"
    [] f = "etree" -> "etree"
    [] f = "dict" -> "dict"
    [] OTHER -> "text"
\* formats which say the same thing
Same(kind, f) == CASE kind = "text" /\ f \in {"xml", "tei", "etree"} -> "tei"
                   [] kind = "cts" /\ f \in {"cts", "etree"} -> "cts"
                   [] OTHER -> f
=============================================================================
