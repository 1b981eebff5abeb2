------------------------------- MODULE ViewsTrace -------------------------------
(* Recorded lives of two meshes: after every call, all views of both.           *)
EXTENDS Views, Json, IOUtils
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES l, ms
vars == <<l, ms>>
Before(e) == IF e.first = "1" THEN <<NoMesh, NoMesh>> ELSE ms
Judge(e, after) ==
   IF e.op # "bad" /\ e.err # "" THEN {"raised"}
   ELSE If(e.op = "bad" /\ e.err = "", "wrong_argument_accepted") \cup UNION {IF after[s].live = "0" THEN {}
               ELSE {(IF s = e.s \/ e.op = "copy" THEN "" ELSE "other_mesh_") \o x : x \in Differences(after[s], e.obs[s])} : s \in {1, 2}}
Init == l = 1 /\ ms = <<NoMesh, NoMesh>>
Next == /\ l <= Len(Trace)
        /\ LET e == Trace[l]
               after == Apply(e, Before(e))
               c == Judge(e, after)
           IN /\ (IF c = {} THEN TRUE ELSE PrintT("@FAIL " \o ToJson([l |-> l, clauses |-> c])))
              /\ ms' = after
        /\ l' = l + 1
TraceSpec == Init /\ [][Next]_vars
TraceComplete == PrintT("@DONE " \o ToJson([n |-> TLCGet("stats").diameter - 1]))
=============================================================================
