----------------------------- MODULE MeshFmtTrace -----------------------------
(* Recorded write/read pairs against MeshFmt.                                *)
EXTENDS MeshFmt, Json, IOUtils
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLE l
File(e) == IF e.file = <<>> THEN {}
   ELSE CASE e.fmt = "flac3d" -> FlacFileOK(e.m, e.file.z, e.file.q, e.file.zg, e.file.fg, e.g)
          [] e.fmt = "avsucd" -> AvsFileOK(e.m, e.file.z)
          [] e.fmt = "tecplot" -> TecFileOK(e.m, e.file)
          [] OTHER -> {}
Clauses(e) ==
   If(e.same # "1", "write_changed_mesh")
   \cup (IF Impossible(e.fmt, e.m) THEN If(e.werr = "", "impossible_mesh_written")
         ELSE IF e.werr # "" THEN {"write_raised"} ELSE File(e) \cup (IF e.rerr # "" THEN {"read_raised"} ELSE ReadBack(e.fmt, e.m, e.n)))
Init == l = 1
Next == /\ l <= Len(Trace)
        /\ LET c == Clauses(Trace[l]) IN
           IF c = {} THEN TRUE ELSE PrintT("@FAIL " \o ToJson([l |-> l, clauses |-> c]))
        /\ l' = l + 1
TraceSpec == Init /\ [][Next]_l
TraceComplete == PrintT("@DONE " \o ToJson([n |-> TLCGet("stats").diameter - 1]))
=============================================================================
