------------------------------ MODULE MeshConvTrace ------------------------------
(* Recorded conversions, and edits of what they gave.                           *)
EXTENDS MeshConv, Json, IOUtils
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES l, mesh
Tagged(how, S) == {how \o "_" \o x : x \in S}
\* fields: op, src, name, idx, lines, err, obs, same
Clauses(M, e) ==
   LET ok(c) == IF e.err # "" THEN {"raised"} ELSE c
       named == \A c \in 1..Len(M.mats) : IsStr(M.mats[c])
   IN If(e.same # "1", "source_changed") \cup
   CASE e.op = "from_meshio" -> Tagged("from_meshio", ok(FromMeshio(e.src, e.name, e.obs)))
     [] e.op = "from_pyvista" -> IF \A c \in SetOf(e.src.cells) : Supported(c.v) THEN Tagged("from_pyvista", ok(FromPyvista(e.src, e.name, e.obs)))
                                 ELSE If(~StartsWith(e.err, "ValueError"), "unsupported_accepted")
     [] e.op = "gmsh" -> Tagged("gmsh", ok(FromGmsh(e.lines, e.obs)))
     [] e.op = "to_pyvista" -> Tagged("to_pyvista", ok(ToPyvista(M, e.src)))
     [] e.op = "to_meshio" -> Tagged("to_meshio", ok(ToMeshio(M, e.src)))
     [] e.op = "set" -> ok(If(named /\ e.obs.mats # SetNames(M.mats, e.name, {i + 1 : i \in SetOf(e.idx)}), "set_material")
                           \cup If(Flat(e.obs.blocks) # Flat(M.blocks), "set_material_cells"))
     [] e.op = "extrude" -> ok(If(named /\ e.obs.mats # Pick(M.mats, Flats(M), 1), "extruded_materials")
                           \cup If(\E c \in SetOf(Flat(e.obs.blocks)) : NDim(c.t) # 3, "extruded_cells"))
     [] e.op = "new" -> ok(If(Flat(e.obs.blocks) # Flat(e.src.blocks), "cells_given_by_type") \cup If(e.bytype # ByType(e.src.blocks), "cells_by_type"))
     [] e.op = "bad" -> If(e.err = "", "accepted")
Init == l = 1 /\ mesh = <<>>
Next == /\ l <= Len(Trace)
        /\ LET c == Clauses(mesh, Trace[l]) IN
           IF c = {} THEN TRUE ELSE PrintT("@FAIL " \o ToJson([l |-> l, clauses |-> c]))
        /\ mesh' = Trace[l].obs
        /\ l' = l + 1
TraceSpec == Init /\ [][Next]_<<l, mesh>>
TraceComplete == PrintT("@DONE " \o ToJson([n |-> TLCGet("stats").diameter - 1]))
=============================================================================
