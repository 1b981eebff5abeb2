------------------------------- MODULE ResultsTrace -------------------------------
(* Recorded histories of Mesh.read_output.                                     *)
EXTENDS Results, Json, IOUtils
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES l, cd, mesh
\* events: op "mesh" [labels, centers, cd]; "read" [outs, t, cd, err, same, scalar, flows...]
\* outs: sequence of [type, labels, data]; scalar "1": a single output, the step is not used
Rejected(e) == If(e.err = "", "not_rejected") \cup If(e.same # "1", "rejected_read_changed_mesh")
Elements(o, e) ==
   IF ~Matches(mesh.labels, o.labels) \/ ~NoDup(o.labels) THEN Rejected(e)
   ELSE IF e.err # "" THEN {"raised"}
   ELSE LET want == ReadElements(mesh.labels, cd, o.labels, o.data) IN
        If(DOMAIN e.cd # DOMAIN want, "variables")
        \cup If(\E k \in DOMAIN e.cd \cap DOMAIN want : k \in DOMAIN o.data /\ e.cd[k] # want[k], "values")
        \cup If(\E k \in DOMAIN e.cd \cap DOMAIN want : k \notin DOMAIN o.data /\ e.cd[k] # want[k], "other_data_changed")
\* e.obs: variable -> per cell three integers; o.ints: variable -> flows
Connections(o, e) ==
   IF \E i \in 1..Len(o.labels) : o.labels[i][1] \notin SetOf(mesh.labels) \/ o.labels[i][2] \notin SetOf(mesh.labels) THEN Rejected(e)
   ELSE IF e.err # "" THEN {"raised"}
   ELSE LET conn == TLCEval([i \in 1..Len(o.labels) |-> <<Pos(mesh.labels, o.labels[i][1]), Pos(mesh.labels, o.labels[i][2])>>])
            n == Len(mesh.labels)
            bad(k) == LET want == Flows(mesh.centers, conn, o.ints[k])
                          tol == TLCEval([c \in 1..n |-> LET q == {i \in 1..Len(conn) : c \in SetOf(conn[i])} IN 2 + 4 * Cardinality(q)])
                      IN Len(e.obs[k]) # n \/ \E c \in 1..n : \E x \in 1..3 : Abs(e.obs[k][c][x] - want[c][x]) > tol[c]
        IN If(DOMAIN e.cd # DOMAIN cd \cup DOMAIN o.ints, "variables")
           \cup If(\E k \in DOMAIN e.cd \cap DOMAIN cd : k \notin DOMAIN o.ints /\ e.cd[k] # cd[k], "other_data_changed")
           \cup (IF DOMAIN e.obs # DOMAIN o.ints THEN {"variables"} ELSE If(\E k \in DOMAIN o.ints : bad(k), "flows"))
Read(e) ==
   LET n == Len(e.outs) IN
   IF e.bad = "1" THEN Rejected(e)
   ELSE IF e.scalar # "1" /\ ~StepOK(n, e.t) THEN Rejected(e)
   ELSE LET o == IF e.scalar = "1" THEN e.outs[1] ELSE e.outs[Step(n, e.t)]
        IN IF o.type = "element" THEN Elements(o, e) ELSE Connections(o, e)
Init == l = 1 /\ cd = <<>> /\ mesh = <<>>
Next == /\ l <= Len(Trace)
        /\ LET e == Trace[l]
               c == IF e.op = "mesh" THEN {} ELSE Read(e)
           IN IF c = {} THEN TRUE ELSE PrintT("@FAIL " \o ToJson([l |-> l, clauses |-> c]))
        /\ mesh' = IF Trace[l].op = "mesh" THEN [labels |-> Trace[l].labels, centers |-> Trace[l].centers] ELSE mesh
        /\ cd' = Trace[l].cd
        /\ l' = l + 1
TraceSpec == Init /\ [][Next]_<<l, cd, mesh>>
TraceComplete == PrintT("@DONE " \o ToJson([n |-> TLCGet("stats").diameter - 1]))
=============================================================================
