------------------------------- MODULE FilesTrace -------------------------------
(* Recorded histories of commands on real directories.                          *)
EXTENDS Files, Json, IOUtils
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES l, fs
\* missing files are left out of recorded directories
Full(d) == [n \in {"DECK", "MESH", "INCON", "SAVE", "OUT", "CO2TAB"} |-> Get(d, n, Absent)]
Diff(a, b) == {n \in DOMAIN a : a[n] # b[n]}
Command(e) ==
   LET ok == Accepted(fs, e) now == Full(e.fs)
       want == IF e.op = "co2tab" THEN (IF ok THEN [fs EXCEPT !["CO2TAB"] = e.data] ELSE fs) ELSE After(fs, e)
   IN If(ok /\ e.err # "", "refused") \cup If(~ok /\ e.err = "", "accepted") \cup If(StartsWith(e.err, "HANG"), "hang")
      \cup (IF ~ok THEN If(Diff(now, fs) # {}, "refused_but_changed_files")
            ELSE If(now[e.out] # want[e.out], "output") \cup If(\E n \in Diff(now, want) : n # e.out, "other_files"))
      \cup If(e.extra # <<>>, "extra_files")
\* what the merged deck says is what its parts say
Meaning(e) == IF e.err # "" THEN {"unreadable"}
              ELSE LET want == Overlay(Overlay(e.deck, e.mesh), e.incon) IN
                   {"lost_" \o k : k \in {x \in DOMAIN want : Get(e.merged, x, "") # want[x]}} \cup If(DOMAIN e.merged # DOMAIN want, "keys")
Clauses(e) == IF e.ev = "dir" THEN {} ELSE IF e.ev = "meaning" THEN Meaning(e) ELSE Command(e)
Init == l = 1 /\ fs = Full(EmptyDict)
Next == /\ l <= Len(Trace)
        /\ LET c == Clauses(Trace[l]) IN
           IF c = {} THEN TRUE ELSE PrintT("@FAIL " \o ToJson([l |-> l, clauses |-> c]))
        /\ fs' = IF Trace[l].ev = "meaning" THEN fs ELSE Full(Trace[l].fs)
        /\ l' = l + 1
TraceSpec == Init /\ [][Next]_<<l, fs>>
TraceComplete == PrintT("@DONE " \o ToJson([n |-> TLCGet("stats").diameter - 1]))
=============================================================================
