------------------------------- MODULE SeriesTrace -------------------------------
(* Recorded calls of write_time_series and what is read back.                   *)
EXTENDS Series, Json, IOUtils
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLE l
\* e: np, nc, nt lengths (-1 missing); ts times; pd, cd: per step name -> values;
\* pts, cells; file: steps read [t, pd, cd], rpts, rcells
Same(given, read) == Len(given) = Len(read) /\ \A i \in 1..Len(given) : Len(given[i]) = Len(read[i]) /\ \A q \in 1..Len(given[i]) : AsF(given[i][q]) = AsF(read[i][q])
Data(given, read) == If(DOMAIN given # DOMAIN read, "names") \cup If(\E k \in DOMAIN given \cap DOMAIN read : ~Same(given[k], read[k]), "values")
Written(e) ==
   LET n == Steps(e.np, e.nc)
       ts == IF e.nt >= 0 THEN [i \in 1..n |-> AsF(e.ts[i])] ELSE [i \in 1..n |-> AsF("i" \o ToString(i - 1))]
       o == Order(TLCEval([i \in 1..n |-> Key(ts[i])]), KeyLe)
   IN If(e.rpts # e.pts, "points") \cup If(e.rcells # e.cells, "cells")
      \cup (IF Len(e.file) # n THEN {"number_of_steps"} ELSE UNION {
            If(e.file[p].t # ts[o[p]], "time_of_step")
            \cup {"point_" \o x : x \in Data(IF e.np > 0 THEN e.pd[o[p]] ELSE <<>>, e.file[p].pd)}
            \cup {"cell_" \o x : x \in Data(IF e.nc > 0 THEN e.cd[o[p]] ELSE <<>>, e.file[p].cd)} : p \in 1..n})
Clauses(e) ==
   If(e.same # "1", "arguments_changed")
   \cup (IF e.ev = "types" THEN If(~(StartsWith(e.err, "TypeError") \/ StartsWith(e.err, "ValueError")), "wrong_type_accepted") \cup If(e.touched # "0", "file_touched")
         ELSE IF ~Accept(e.np, e.nc, e.nt) THEN If(~StartsWith(e.err, "ValueError"), "inconsistent_lists_accepted") \cup If(e.touched # "0", "file_touched")
         ELSE IF e.err # "" THEN {"raised"} ELSE Written(e))
Init == l = 1
Next == /\ l <= Len(Trace)
        /\ LET c == Clauses(Trace[l]) IN
           IF c = {} THEN TRUE ELSE PrintT("@FAIL " \o ToJson([l |-> l, clauses |-> c]))
        /\ l' = l + 1
TraceSpec == Init /\ [][Next]_l
TraceComplete == PrintT("@DONE " \o ToJson([n |-> TLCGet("stats").diameter - 1]))
=============================================================================
