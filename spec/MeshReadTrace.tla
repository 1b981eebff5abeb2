----------------------------- MODULE MeshReadTrace -----------------------------
(* Recorded reads of mesh files written by other programs.                      *)
EXTENDS MeshRead, Json, IOUtils
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLE l
Clauses(e) ==
   CASE e.ev = "read" -> IF e.fmt = "flac3d" /\ FlacOdd(e.lines) THEN If(StartsWith(e.err, "HANG"), "hang")
                         ELSE IF e.err # "" THEN {"raised"} ELSE Agrees(MeshOf(e.fmt, e.lines), e.n)
     \* a binary file against the text file of the same grid
     [] e.ev = "binary" -> IF e.err # "" THEN {"raised"} ELSE {"binary_" \o x : x \in Agrees(MeshOf(e.fmt, e.lines), e.n)}
     [] e.ev = "refuse" -> If(e.err = "", "accepted") \cup If(StartsWith(e.err, "HANG"), "hang")
Init == l = 1
Next == /\ l <= Len(Trace)
        /\ LET c == Clauses(Trace[l]) IN
           IF c = {} THEN TRUE ELSE PrintT("@FAIL " \o ToJson([l |-> l, clauses |-> c]))
        /\ l' = l + 1
TraceSpec == Init /\ [][Next]_l
TraceComplete == PrintT("@DONE " \o ToJson([n |-> TLCGet("stats").diameter - 1]))
=============================================================================
