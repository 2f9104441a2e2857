------------------------------ MODULE MCExports ------------------------------
(* Every hierarchy of up to three classes under the base (a chain, or a class inheriting from two), over two
   formats; every question.                                                                                *)
EXTENDS Exports, TLC, Json
CONSTANTS Fmts, Sizes
VARIABLES cl, shape, done
Owns == {<<>>} \cup {<<q>> : q \in {<<>>} \cup {<<f>> : f \in Fmts} \cup {<<f, g>> : f \in Fmts, g \in Fmts}}
Dflts == {<<>>, <<"">>} \cup {<<f>> : f \in Fmts}
Base == [own |-> <<<<>>>>, dflt |-> <<"">>, impl |-> TRUE, mro |-> <<1>>]
Mros == [c1 |-> <<<<2, 1>>>>, c2 |-> <<<<2, 1>>, <<3, 2, 1>>>>, y |-> <<<<2, 1>>, <<3, 1>>, <<4, 3, 2, 1>>>>, c3 |-> <<<<2, 1>>, <<3, 2, 1>>, <<4, 3, 2, 1>>>>]
Cls(m, o, d, i) == [own |-> o, dflt |-> d, impl |-> i, mro |-> m]
Some == {o \in Owns : o = <<>> \/ Len(o[1]) < 2}
Init == /\ shape \in Sizes
        /\ LET m == Mros[shape] IN
           \/ Len(m) = 1 /\ \E o \in Owns, d \in Dflts, i \in BOOLEAN : cl = <<Base, Cls(m[1], o, d, i)>>
           \/ Len(m) = 2 /\ \E o \in Owns, d \in Dflts, i \in BOOLEAN, o2 \in Owns, d2 \in Dflts, i2 \in BOOLEAN :
                cl = <<Base, Cls(m[1], o, d, i), Cls(m[2], o2, d2, i2)>>
           \/ Len(m) = 3 /\ \E o \in Some, i \in BOOLEAN, o2 \in Some, d2 \in Dflts, i2 \in BOOLEAN, o3 \in Some, i3 \in BOOLEAN :
                cl = <<Base, Cls(m[1], o, <<>>, i), Cls(m[2], o2, d2, i2), Cls(m[3], o3, <<>>, i3)>>
        /\ done = FALSE
Next == ~done /\ done' = TRUE /\ UNCHANGED <<cl, shape>>
Spec == Init /\ [][Next]_<<cl, shape, done>>
Top == Len(cl)
\* announced exactly when some class of the object announces it
CapsAreOwn == Caps(cl, Top) = UNION {IF cl[i].own = <<>> THEN {} ELSE RangeOf(cl[i].own[1]) : i \in RangeOf(cl[Top].mro)}
\* every question has an answer exactly when the format is announced
Answered == \A f \in Fmts : (Run(cl, Top, <<f>>) # <<>>) = (f \in Caps(cl, Top))
\* without a format, as with the default one
ByDefault == Run(cl, Top, <<>>) = IF Dflt(cl, Top) = "" THEN <<>> ELSE Run(cl, Top, <<Dflt(cl, Top)>>)
\* a class announcing a format and exporting it is in charge of it, whatever is above it
Own1 == \A f \in Fmts : cl[Top].own # <<>> /\ cl[Top].impl /\ f \in RangeOf(cl[Top].own[1]) => Run(cl, Top, <<f>>)[1].by = Top
\* adding a class which says nothing changes nothing
Silent == LET c2 == Append(cl, Cls(<<Top + 1>> \o cl[Top].mro, <<>>, <<>>, FALSE)) IN \A f \in {<<>>} \cup {<<g>> : g \in Fmts} : Run(c2, Top + 1, f) = Run(cl, Top, f)
Emit == done => PrintT("SCN " \o ToJson(cl))
=============================================================================
