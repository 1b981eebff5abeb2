------------------------------ MODULE RegistryTrace ------------------------------
(* Recorded histories of registrations and calls, one process each.               *)
EXTENDS Registry, Json, IOUtils
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES l, st, mats
\* events: start [kind]; reg [kind, r, material]; call [kind, op, path, fmt, lines, err, calls, passed, files, keys, got]
Rules(e) == [name |-> e.name, exts |-> SetOf(e.exts), rd |-> e.rd, wr |-> e.wr]
Content(e) == IF e.kind = "output" /\ e.op = "read" THEN Detect(e.lines) ELSE "none"
Call(e) ==
   LET h == Handler(e.kind, e.op, st, e.path, e.fmt, Content(e)) IN
   IF h = Reject THEN If(e.err = "", "accepted") \cup If(e.calls # <<>>, "wrong_handler") \cup If(e.files # <<>>, "rejected_call_touched_files") \cup If(StartsWith(e.err, "HANG"), "hang")
   ELSE IF h = "meshio" \/ h = "own"
   THEN If(e.calls # <<>>, "wrong_handler") \cup If(e.op = "write" /\ e.err # "", "raised")
   ELSE If(e.err # "", "raised") \cup If(e.calls # <<h>>, "wrong_handler") \cup If(e.passed # "1", "arguments") \cup If(e.files # <<>>, "other_files")
        \cup (IF e.kind = "mesh" /\ e.op = "read" /\ e.err = "" /\ e.calls = <<h>> /\ Format(e.kind, e.op, st, e.path, e.fmt, "none") \notin {"tough", "pickle"}
                   \* cell data: one array to a mesh, one array per block to a handler
              THEN If(e.form # "flat", "form") \cup If(SetOf(e.got) # (IF e.keys # <<>> /\ e.keys[1] \in mats THEN {"material"} \cup SetOf(Tail(e.keys)) ELSE SetOf(e.keys)), "material_key") ELSE {})
        \cup (IF e.kind = "mesh" /\ e.op = "write" /\ e.calls = <<h>> THEN If((e.form = "lists") # (Format(e.kind, e.op, st, e.path, e.fmt, "none") \notin {"tough", "pickle"}), "form") ELSE {})
\* files written by the formats of the library announce themselves
Builtin(e) ==
   LET h == Handler(e.kind, "write", Base(e.kind), e.path, e.fmt, "none") f == Format(e.kind, "write", Base(e.kind), e.path, e.fmt, "none") IN
   IF h = Reject THEN If(e.err = "", "accepted") \cup If(e.files # <<>>, "rejected_call_touched_files")
   ELSE LET want == IF f # "" THEN f ELSE BehindExt[Extension(e.path)] IN
        If(e.err # "", "raised") \cup If(e.err = "" /\ e.kindof # want, "format_of_file") \cup If(e.err = "" /\ e.reread # "1", "read_back")
BadType(e) == If(~(StartsWith(e.err, "TypeError") \/ StartsWith(e.err, "ValueError")), "accepted") \cup If(e.calls # <<>> \/ e.files # <<>>, "rejected_call_touched_files")
Clauses(e) == CASE e.ev = "call" -> Call(e) [] e.ev = "builtin" -> Builtin(e) [] e.ev = "badtype" -> BadType(e) [] OTHER -> {}
Start == {"material", "gmsh:physical", "medit:ref", "avsucd:material", "flac3d:group"}
Init == l = 1 /\ st = Base("input") /\ mats = Start
Next == /\ l <= Len(Trace)
        /\ LET e == Trace[l] c == Clauses(e) IN
           /\ IF c = {} THEN TRUE ELSE PrintT("@FAIL " \o ToJson([l |-> l, clauses |-> c]))
           /\ st' = CASE e.ev = "start" -> Base(e.kind) [] e.ev = "reg" -> Registered(st, Rules(e)) [] OTHER -> st
           /\ mats' = CASE e.ev = "start" -> Start [] e.ev = "reg" -> mats \cup If(e.material # "", e.material) [] OTHER -> mats
        /\ l' = l + 1
TraceSpec == Init /\ [][Next]_<<l, st, mats>>
TraceComplete == PrintT("@DONE " \o ToJson([n |-> TLCGet("stats").diameter - 1]))
=============================================================================
