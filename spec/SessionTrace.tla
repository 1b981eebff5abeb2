----------------------------- MODULE SessionTrace -----------------------------
(***************************************************************************)
(* Recorded histories.  Event: [op, f, p, err, arg, dig, disk]             *)
(*   err  "" or the exception; arg "1" if the argument is as it was;       *)
(*   disk file -> digest of its bytes after the call ("" if absent);       *)
(*   dig  for a read, digest of the dictionary returned.                   *)
(* The digest a fresh process produces for each parameter set is FRESH,    *)
(* for each file content the dictionary a fresh process reads is FREAD.    *)
(* op "begin" empties the disk.                                            *)
(***************************************************************************)
EXTENDS Session, Json, IOUtils
Trace == ndJsonDeserialize(IOEnv.TRACE)
Fresh == ndJsonDeserialize(IOEnv.FRESH)[1]
Fread == ndJsonDeserialize(IOEnv.FREAD)[1]
VARIABLES l, disk
If(c, k) == IF c THEN {k} ELSE {}
Content(d, f) == IF d[f] = Absent THEN "" ELSE Fresh[d[f]]
After(d, e) == IF e.op = "begin" THEN [f \in Files |-> Absent]
               ELSE IF e.op = "write" THEN Write(d, e.f, e.p) ELSE Read(d, e.f)
Clauses(d, e) ==
   IF e.op = "begin" THEN {}
   ELSE LET n == After(d, e) IN
        If(e.arg # "1", "argument_modified")
        \cup If(e.op = "write" /\ e.p \in Valid /\ e.err # "", "valid_write_rejected")
        \cup If(e.op = "write" /\ e.p \in Invalid /\ e.err = "", "invalid_write_accepted")
        \cup If(\E f \in Files \ {e.f} : e.disk[f] # Content(n, f), "other_file_changed")
        \cup If(e.disk[e.f] # Content(n, e.f),
                IF e.op = "write" /\ e.p \in Invalid THEN "rejected_write_changed_file"
                ELSE IF e.op = "read" THEN "read_changed_file" ELSE "content_depends_on_history")
        \cup If(e.op = "read" /\ (e.err # "" \/ e.dig # Fread[d[e.f]]), "read_depends_on_history")
Init == l = 1 /\ disk = [f \in Files |-> Absent]
Next == /\ l <= Len(Trace)
        /\ LET c == Clauses(disk, Trace[l]) IN
           IF c = {} THEN TRUE ELSE PrintT("@FAIL " \o ToJson([l |-> l, clauses |-> c]))
        /\ disk' = After(disk, Trace[l])
        /\ l' = l + 1
TraceSpec == Init /\ [][Next]_<<l, disk>>
TraceComplete == PrintT("@DONE " \o ToJson([n |-> TLCGet("stats").diameter - 1]))
=============================================================================
