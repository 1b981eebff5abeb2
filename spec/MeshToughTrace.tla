---------------------------- MODULE MeshToughTrace ----------------------------
EXTENDS MeshTough, Json, IOUtils
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLE l
If(c, k) == IF c THEN {k} ELSE {}
Clauses(e) ==
   CASE e.ev = "mesh" -> IF e.err # "" THEN {"raised"} ELSE MeshFileClauses(e)
     [] e.ev = "incon" -> IF e.err # "" THEN {"raised"} ELSE InconClauses(e)
     \* what the library reads back from the file is what stands in it
     [] e.ev = "back" -> IF e.err # "" THEN {"raised"}
                         ELSE {"back_" \o x : x \in Diff(Parse(e.lines, LabelLength(e.n, e.ll)).d, e.Q)}
     \* a rejected export: error raised, file as it was
     [] e.ev = "reject" -> If(~(StartsWith(e.err, "ValueError") \/ StartsWith(e.err, "TypeError")), "not_rejected")
                           \cup If(e.touched # "0", "file_touched")
     \* the same export again gives the same bytes, and the mesh is as it was
     [] e.ev = "again" -> IF e.err # "" THEN {"raised"} ELSE If(e.a # e.b, "second_export_differs") \cup If(e.before # e.after, "mesh_changed")
     [] OTHER -> {"unknown_event"}
Init == l = 1
Next == /\ l <= Len(Trace)
        /\ LET c == Clauses(Trace[l]) IN
           IF c = {} THEN TRUE ELSE PrintT("@FAIL " \o ToJson([l |-> l, clauses |-> c]))
        /\ l' = l + 1
TraceSpec == Init /\ [][Next]_l
TraceComplete == PrintT("@DONE " \o ToJson([n |-> TLCGet("stats").diameter - 1]))
=============================================================================
