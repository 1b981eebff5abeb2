-------------------------------- MODULE QueryTrace --------------------------------
(* Recorded answers of Mesh.near, Mesh.filter.box and Mesh.qualities.          *)
EXTENDS Query, Json, IOUtils
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLE l
\* centres in 1/960 of the lattice step, from point o
C960(e) == TLCEval([i \in 1..Len(e.cells) |-> LET c == C120([pts |-> e.pts], e.cells[i], e.o) IN [k \in 1..3 |-> 8 * c[k]]])
Near(e, C) ==
   IF e.err # "" THEN {"raised"}
   ELSE If(Len(e.got) # Len(e.q), "number_of_answers")
        \cup If(Len(e.got) = Len(e.q) /\ \E i \in 1..Len(e.q) : (e.got[i] + 1) \notin Nearest(C, e.q[i]), "nearest")
        \cup If(e.one # e.oneout, "shape_of_answer")
BoxOK(e, C) ==
   IF e.err # "" THEN {"raised"}
   ELSE LET S == {x + 1 : x \in SetOf(e.got)}
            edge == IF e.exact = "1" THEN {} ELSE {i \in 1..Len(C) : OnBox(e.b, C[i])}
            want == Box(e.b, C)
        IN If(S \ edge # want \ edge, "cells_in_box") \cup If(\E i \in 1..(Len(e.got) - 1) : e.got[i] >= e.got[i + 1], "order")
Quality(e) ==
   IF e.err # "" THEN {"raised"}
   ELSE LET M == [pts |-> e.pts, cells |-> e.cells]
            fs == TLCEval(AllFacets(M))
            C == TLCEval([i \in 1..Len(e.cells) |-> C120(M, e.cells[i], e.o)])
        IN If(Len(e.got) # Len(e.cells), "number_of_answers")
           \cup If(\E i \in 1..Len(e.got) :
                     LET S == Cosines(M, C, fs, i) IN
                     S # {} /\ LET x == Least(S) IN
                        \* e.got: 10^6 times the quality
                        ~(e.got[i] >= 0 /\ B!BClose(B!BMul(B!BSq(B!BNat(e.got[i])), x.den), B!BMul(x.num, B!BPow10(12)), 20,
                                                    B!BMul(x.den, B!BNat(4 * e.got[i] + 40)))), "quality")
Clauses(e) == CASE e.ev = "near" -> Near(e, C960(e))
                [] e.ev = "box" -> BoxOK(e, C960(e))
                [] e.ev = "quality" -> Quality(e)
                [] e.ev = "bad" -> If(~(StartsWith(e.err, "TypeError") \/ StartsWith(e.err, "ValueError")), "not_rejected")
                [] OTHER -> {"unknown_event"}
Init == l = 1
Next == /\ l <= Len(Trace)
        /\ LET c == Clauses(Trace[l]) \cup If(Trace[l].same # "1", "query_changed_mesh") IN
           IF c = {} THEN TRUE ELSE PrintT("@FAIL " \o ToJson([l |-> l, clauses |-> c]))
        /\ l' = l + 1
TraceSpec == Init /\ [][Next]_l
TraceComplete == PrintT("@DONE " \o ToJson([n |-> TLCGet("stats").diameter - 1]))
=============================================================================
