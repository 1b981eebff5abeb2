------------------------------- MODULE MeshConvMC -------------------------------
(* Materials of cells told by id and dimension, as gmsh numbers them, under     *)
(* changes of material and extrusion; and pixels and voxels put around.         *)
EXTENDS MeshConv, Json
CONSTANTS NCells, NSteps, Every
Names == {"a", "b", "c"}
Pairs == {<<"i1", "i1">>, <<"i1", "i2">>, <<"i1", "i3">>, <<"i2", "i2">>, <<"i2", "i3">>}
TypeOf == [i1 |-> "line", i2 |-> "triangle", i3 |-> "tetra"]
VARIABLES fd, cells, want, hist
vars == <<fd, cells, want, hist>>
Pick1(S) == CHOOSE x \in S : TRUE
Lookup(f, c) == NamesOf(f, c.id, NDim(c.t))
Init == \E D \in SUBSET Names : D # {} /\ \E f \in [D -> Pairs] :
          /\ \A x, y \in D : x # y => f[x] # f[y]
          /\ fd = f
          /\ \E n \in 1..NCells : \E q \in [1..n -> D] :
               /\ want = q /\ cells = [c \in 1..n |-> [t |-> TypeOf[f[q[c]][2]], id |-> f[q[c]][1]]]
               /\ hist = <<[op |-> "init", fd |-> f, cells |-> [c \in 1..n |-> [t |-> TypeOf[f[q[c]][2]], id |-> f[q[c]][1]]]]>>
Used == {IntVal(fd[k][1]) : k \in Keys(fd)} \cup {IntVal(cells[c].id) : c \in 1..Len(cells)}
Fresh == "i" \o ToString(1 + CHOOSE m \in Used : \A x \in Used : x <= m)
\* a material whose id is shared by materials of other dimensions takes a new one
Set(nm, S) ==
   LET old == IF nm \in Keys(fd) THEN fd[nm][1] ELSE ""
       shared == nm \in Keys(fd) /\ \E k \in Keys(fd) \ {nm} : fd[k][1] = old
       id == IF nm \in Keys(fd) /\ ~shared THEN old ELSE Fresh
   IN /\ cells' = [c \in 1..Len(cells) |-> IF c \in S \/ (shared /\ Lookup(fd, cells[c]) = {nm}) THEN [cells[c] EXCEPT !.id = id] ELSE cells[c]]
      /\ fd' = [k \in Keys(fd) \cup {nm} |-> IF k = nm THEN <<id, "i3">> ELSE fd[k]]
      /\ want' = [c \in 1..Len(want) |-> IF c \in S THEN nm ELSE want[c]]
      /\ hist' = Append(hist, [op |-> "set", name |-> nm, idx |-> {c - 1 : c \in S}])
Two == {c \in 1..Len(cells) : NDim(cells[c].t) = 2}
Extrude ==
   /\ Two # {} /\ \A c \in 1..Len(cells) : NDim(cells[c].t) < 3
   /\ LET twos == {fd[k][1] : k \in {k \in Keys(fd) : fd[k][2] = "i2"}} IN
      /\ cells' = [c \in 1..Len(Pick(cells, Two, 1)) |-> [Pick(cells, Two, 1)[c] EXCEPT !.t = "wedge"]]
      /\ want' = Pick(want, Two, 1)
      /\ fd' = [k \in {k \in Keys(fd) : ~(fd[k][2] = "i3" /\ fd[k][1] \in twos)} |-> IF fd[k][2] = "i2" THEN <<fd[k][1], "i3">> ELSE fd[k]]
   /\ hist' = Append(hist, [op |-> "extrude"])
Next == Len(hist) <= NSteps /\ (Extrude \/ \E nm \in {"a", "b", "new"} : \E S \in SUBSET (1..Len(cells)) : S # {} /\ Set(nm, S))
Spec == Init /\ [][Next]_vars
Named == \A c \in 1..Len(cells) : Lookup(fd, cells[c]) = {want[c]}
\* nodes next to each other in a quad differ along one axis; so do those above each other
One(a, b) == Cardinality({d \in 1..3 : At(a)[d] # At(b)[d]}) = 1
Around(o) == \A k \in 1..4 : One(o[k], o[(k % 4) + 1])
Orders == /\ Around(PixelOrder) /\ Around(SubSeq(VoxelOrder, 1, 4)) /\ Around(SubSeq(VoxelOrder, 5, 8))
          /\ \A k \in 1..4 : One(VoxelOrder[k], VoxelOrder[k + 4]) /\ At(VoxelOrder[k])[3] = 0 /\ At(VoxelOrder[k + 4])[3] = 1
Emitted == (Every > 0 /\ Len(hist) = NSteps + 1 /\ TLCGet("distinct") % Every = 0) => PrintT("@HIST " \o ToJson(hist))
=============================================================================
