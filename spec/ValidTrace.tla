------------------------------ MODULE ValidTrace ------------------------------
(* Writes with one parameter replaced.                                     *)
(*  kind:    [path, key, kind, err, kept]  a value of another kind         *)
(*  shape:   [what, err, kept]             an inconsistent shape or name   *)
(*  good:    [what, err]                   a documented value              *)
(*  unknown: [path, err, same]             a key the library does not know *)
(* err is the exception type ("" if none); kept "1" when the existing file *)
(* still has its old bytes; same "1" when the deck is what it is without   *)
(* the key.                                                                *)
EXTENDS Valid, Json, IOUtils
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLE l
If(c, k) == IF c THEN {k} ELSE {}
Rejection == {"TypeError", "ValueError"}
Clauses(e) ==
  CASE e.ev = "kind" ->
         LET t == Table[e.path][e.key] IN
         If(e.kind \in Refused(t) /\ e.err \notin Rejection, "wrong_type_not_rejected")
         \cup If(e.kind \in Refused(t) /\ e.kept # "1", "rejected_write_touched_file")
         \cup If(e.kind \in Accept[t] /\ e.ok = "1" /\ e.err # "", "documented_type_rejected")
    [] e.ev = "shape" -> If(e.err \notin Rejection, "inconsistent_value_not_rejected") \cup If(e.kept # "1", "rejected_write_touched_file")
    [] e.ev = "good" -> If(e.err # "", "valid_value_rejected")
    [] e.ev = "unknown" -> If(e.err # "", "unknown_key_rejected") \cup If(e.same # "1", "unknown_key_changes_deck")
    [] OTHER -> {"unknown_event"}
Init == l = 1
Next == /\ l <= Len(Trace)
        /\ LET c == Clauses(Trace[l]) IN IF c = {} THEN TRUE ELSE PrintT("@FAIL " \o ToJson([l |-> l, clauses |-> c]))
        /\ l' = l + 1
TraceSpec == Init /\ [][Next]_l
TraceComplete == PrintT("@DONE " \o ToJson([n |-> TLCGet("stats").diameter - 1]))
=============================================================================
