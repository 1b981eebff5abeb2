----------------------------- MODULE LabelsTrace -----------------------------
(* Recorded label lists: windows of consecutive labels must be consecutive   *)
(* readings of the odometer, starting at the recorded index.                 *)
EXTENDS Labels, Json, IOUtils
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES l, wh
vars == <<l, wh>>

LenOf(e) == IF e.len = 0 THEN AutoLength(e.n) ELSE e.len

Clauses(e) ==
  CASE e.ev = "list"  ->            \* labeler(n, len) returned e.count labels
        (IF e.err # "" THEN {"no_error"} ELSE {})
        \cup (IF e.count # e.n THEN {"one_label_per_cell"} ELSE {})
        \cup (IF e.distinct # e.n THEN {"labels_distinct"} ELSE {})
        \cup (IF e.minlen # LenOf(e) \/ e.maxlen # LenOf(e) THEN {"label_length"} ELSE {})
    [] e.ev = "at" -> IF e.label # Label(LenOf(e), e.i) THEN {"label_at_index"} ELSE {}
    [] e.ev = "next" -> IF e.label # Text_(LenOf(e), Succ(LenOf(e), wh)) THEN {"odometer_click"} ELSE {}
    [] OTHER -> {"unknown_event"}

Init == l = 1 /\ wh = <<>>
Next == /\ l <= Len(Trace)
        /\ LET e == Trace[l]
               c == Clauses(e)
           IN /\ (IF c = {} THEN TRUE ELSE PrintT("@FAIL " \o ToJson([l |-> l, clauses |-> c])))
              /\ wh' = CASE e.ev = "at" -> LabelWheels(LenOf(e), e.i)
                         [] e.ev = "next" -> Succ(LenOf(e), wh)
                         [] OTHER -> wh
        /\ l' = l + 1
TraceSpec == Init /\ [][Next]_vars
TraceComplete == PrintT("@DONE " \o ToJson([n |-> TLCGet("stats").diameter - 1]))
=============================================================================
