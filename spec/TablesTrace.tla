------------------------------ MODULE TablesTrace ------------------------------
(* Recorded write_output / read_output calls on tables.                         *)
EXTENDS Tables, Json, IOUtils
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLE l
Bool(e, k) == Get(e, k, "0") = "1"
Sch(p, S) == {p \o x : x \in S}
Read(e, tab, fmt) ==
   IF e.err # "" THEN {"raised"}
   ELSE If(\E i \in 1..Len(e.kinds) : e.kinds[i] # <<tab.ty, fmt>>, "kind_of_output") \cup Sch("read_", SameTab(tab, [ty |-> tab.ty, steps |-> e.read]))
Written(e) ==
   LET r == Rounded(e.given, e.fmt) IN
   If(e.changed # "0", "outputs_changed")
   \cup (IF e.werr # "" THEN {"write_raised"}
         ELSE IF Detect(e.lines) # e.fmt THEN {"layout"}
         ELSE Sch("file_", SameTab(r, Parse(e.lines))) \cup Read(e, r, e.fmt))
Refused(e) == IF e.err = "" THEN {"accepted"} ELSE If(StartsWith(e.err, "HANG"), "hang")
Ordered(e) ==
   LET tab == Parse(e.lines) fmt == Detect(e.lines) IN
   IF tab.ty = "element" /\ (fmt = "tecplot" \/ ~CanOrder(tab, e.order)) THEN Refused(e)
   ELSE Read(e, IF tab.ty = "element" THEN Reorder(tab, e.order) ELSE tab, fmt)
Clauses(e) ==
   CASE e.ev = "write" -> Written(e)
     [] e.ev = "read" -> Read(e, Parse(e.lines), Detect(e.lines))
     [] e.ev = "order" -> Ordered(e)
     [] e.ev = "kind" -> If((e.err = "") # (Detect(e.lines) # "none"), "recognised") \cup (IF e.err = "" THEN If(e.kind # <<DetectType(e.lines), Detect(e.lines)>>, "kind") ELSE If(~StartsWith(e.err, "ValueError"), "error"))
     [] e.ev = "refuse" -> Refused(e) \cup If(e.touched # "0", "file_touched")
Init == l = 1
Next == /\ l <= Len(Trace)
        /\ LET c == Clauses(Trace[l]) IN
           IF c = {} THEN TRUE ELSE PrintT("@FAIL " \o ToJson([l |-> l, clauses |-> c]))
        /\ l' = l + 1
TraceSpec == Init /\ [][Next]_l
TraceComplete == PrintT("@DONE " \o ToJson([n |-> TLCGet("stats").diameter - 1]))
=============================================================================
