---------------------------- MODULE MeshEditTrace ----------------------------
(* Recorded edit histories: every step must be one of MeshEdit's.           *)
EXTENDS MeshEdit, Json, IOUtils
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES l, mesh
If(c, k) == IF c THEN {k} ELSE {}
TypeErr(e) == StartsWith(e.err, "TypeError") \/ StartsWith(e.err, "ValueError")
\* fields of an event: op, name, idx (0-based cells), val, hs, axis, err, obs, kept ("1": originals as before)
Step(M, e) ==
   LET N == e.obs
       \* may this edit be refused?
       refused == IF Same(M, N) THEN {} ELSE {"rejected_edit_changed_mesh"}
       must(c, k) == If(~c, k)
       ok(c, k) == IF e.err # "" THEN {"raised"} \cup refused ELSE must(c, k)
   IN If(e.kept # "1", "original_changed") \cup If(~Consistent(N), "consistent")
      \cup (IF ~Consistent(N) THEN {} ELSE
      CASE e.op = "set" -> LET S == {i + 1 : i \in SetOf(e.idx)} IN
              IF "material" \notin Keys(M.cd) THEN (IF e.err = "" THEN {} ELSE refused)
              ELSE IF S = {} THEN (IF e.err = "" THEN must(SetMaterialRel(M, N, e.name, S), "set_nothing") ELSE refused)
              ELSE ok(SetMaterialRel(M, N, e.name, S), "set_material")
        [] e.op = "add_cell" -> IF e.name = "material" THEN ok(N.cd = AddCellData(M, e.name, e.val).cd /\ SameGeo(M, N) /\ N.pd = M.pd /\ N.fd = M.fd, "add_cell_data")
                                ELSE ok(Same(N, AddCellData(M, e.name, e.val)), "add_cell_data")
        [] e.op = "add_point" -> ok(Same(N, AddPointData(M, e.name, e.val)), "add_point_data")
        [] e.op = "prune" -> ok(PruneRel(M, N), "prune_duplicates")
        [] e.op = "extrude" -> IF ~Flat2D(M, e.axis) THEN must(TypeErr(e), "extrude_not_rejected") \cup refused
                               ELSE ok(ExtrudeRel(M, N, e.hs, e.axis), "extrude_to_3d")
        [] e.op = "c2p" -> IF e.err # "" THEN refused \cup
                              If(e.solid = "1" /\ UsedPoints(M) = 0..(Len(M.pts) - 1) /\ e.numeric = "1", "raised")
                           ELSE must(CellToPointRel(M, N, e.solid = "1"), "cell_data_to_point_data")
        [] e.op = "p2c" -> ok(PointToCellRel(M, N), "point_data_to_cell_data")
        [] e.op \in {"meshio", "pyvista"} -> ok(ConvertRel(M, N, e.op), e.op)
        [] e.op = "write" -> If(~Same(M, N), "write_changed_mesh")
        [] e.op = "look" -> If(~Same(M, N), "query_changed_mesh")
        [] e.op = "bad" -> must(e.err # "", "not_rejected") \cup refused
        [] OTHER -> {"unknown_op"})
Init == l = 1 /\ mesh = <<>>
Next == /\ l <= Len(Trace)
        /\ LET e == Trace[l]
               c == IF e.op = "init" THEN If(~Consistent(e.obs), "consistent_init") ELSE Step(mesh, e)
           IN IF c = {} THEN TRUE ELSE PrintT("@FAIL " \o ToJson([l |-> l, clauses |-> c]))
        /\ mesh' = Trace[l].obs
        /\ l' = l + 1
TraceSpec == Init /\ [][Next]_<<l, mesh>>
TraceComplete == PrintT("@DONE " \o ToJson([n |-> TLCGet("stats").diameter - 1]))
=============================================================================
