------------------------------- MODULE TopoMC -------------------------------
(***************************************************************************)
(* Meshes built voxel by voxel: a row of unit cubes (edge 2), each left as *)
(* a hexahedron or split in one of several ways into wedges, pyramids or   *)
(* tetrahedra.  Invariants: the face tables are closed outward surfaces,   *)
(* the pieces fill the cube, no facet has more than two cells, and a facet *)
(* has one cell exactly when it lies on the boundary or on a non-matching  *)
(* diagonal.  With Emit = 1 every complete mesh is printed for replay.     *)
(***************************************************************************)
EXTENDS Topo, Json
CONSTANTS NVox, Emit
VARIABLES pat            \* splitting pattern of each voxel so far

\* nodes of voxel v (0-based): columns of 4 nodes at x = 2v; then apexes
V(v) == <<4*v, 4*v+4, 4*v+5, 4*v+1, 4*v+2, 4*v+6, 4*v+7, 4*v+3>>
Apex(v) == 4 * (NVox + 1) + v
Pts == [i \in 1..(4 * (NVox + 1) + NVox) |->
          IF i <= 4 * (NVox + 1)
          THEN LET c == (i - 1) \div 4 r == (i - 1) % 4 IN <<2 * c, IF r \in {1, 3} THEN 2 ELSE 0, IF r \in {2, 3} THEN 2 ELSE 0>>
          ELSE <<2 * (i - 4 * (NVox + 1) - 1) + 1, 1, 1>>]
Pick(v, idx) == [k \in 1..Len(idx) |-> IF idx[k] = 8 THEN Apex(v) ELSE V(v)[idx[k] + 1]]
C(v, t, idx) == [t |-> t, n |-> Pick(v, idx)]
Patterns == {"hexa", "wedge_z", "wedge_z2", "wedge_x", "wedge_y", "pyr", "tet5", "tet5b", "tet6", "mixed"}
Pieces(v, p) ==
   CASE p = "hexa" -> <<C(v, "hexahedron", <<0,1,2,3,4,5,6,7>>)>>
     [] p = "wedge_z" -> <<C(v, "wedge", <<0,1,2,4,5,6>>), C(v, "wedge", <<0,2,3,4,6,7>>)>>
     [] p = "wedge_z2" -> <<C(v, "wedge", <<0,1,3,4,5,7>>), C(v, "wedge", <<1,2,3,5,6,7>>)>>
     [] p = "wedge_x" -> <<C(v, "wedge", <<0,3,7,1,2,6>>), C(v, "wedge", <<0,7,4,1,6,5>>)>>
     [] p = "wedge_y" -> <<C(v, "wedge", <<0,4,5,3,7,6>>), C(v, "wedge", <<0,5,1,3,6,2>>)>>
     [] p = "pyr" -> <<C(v, "pyramid", <<0,1,2,3,8>>), C(v, "pyramid", <<4,7,6,5,8>>), C(v, "pyramid", <<0,4,5,1,8>>),
                       C(v, "pyramid", <<1,5,6,2,8>>), C(v, "pyramid", <<2,6,7,3,8>>), C(v, "pyramid", <<0,3,7,4,8>>)>>
     [] p = "tet5" -> <<C(v, "tetra", <<0,1,3,4>>), C(v, "tetra", <<1,2,3,6>>), C(v, "tetra", <<1,4,5,6>>),
                        C(v, "tetra", <<3,4,6,7>>), C(v, "tetra", <<1,3,4,6>>)>>
     [] p = "tet5b" -> <<C(v, "tetra", <<1,0,2,5>>), C(v, "tetra", <<3,0,2,7>>), C(v, "tetra", <<4,0,5,7>>),
                         C(v, "tetra", <<6,2,5,7>>), C(v, "tetra", <<0,2,5,7>>)>>
     [] p = "tet6" -> <<C(v, "tetra", <<0,1,2,6>>), C(v, "tetra", <<0,2,3,6>>), C(v, "tetra", <<0,3,7,6>>),
                        C(v, "tetra", <<0,7,4,6>>), C(v, "tetra", <<0,4,5,6>>), C(v, "tetra", <<0,5,1,6>>)>>
     [] OTHER -> <<C(v, "pyramid", <<0,1,2,3,4>>), C(v, "pyramid", <<1,2,6,5,4>>), C(v, "pyramid", <<2,3,7,6,4>>)>>

RECURSIVE Build(_, _)
Build(p, v) == IF v > Len(p) THEN <<>> ELSE Pieces(v - 1, p[v]) \o Build(p, v + 1)
M == [pts |-> Pts, cells |-> Build(pat, 1)]

Init == pat = <<>>
Next == /\ Len(pat) < NVox
        /\ \E p \in Patterns : pat' = Append(pat, p)
        /\ Emit = 1 /\ Len(pat') = NVox => PrintT("@MESH " \o ToJson([pts |-> Pts, cells |-> Build(pat', 1)]))
Spec == Init /\ [][Next]_pat

Edges(r) == {<<r[k], r[(k % Len(r)) + 1]>> : k \in 1..Len(r)}
\* every directed edge of the face table meets its reverse once: a closed, oriented surface
Closed == \A t \in DOMAIN FaceTable : \A f \in 1..NFaces(t) : \A d \in Edges(FaceTable[t][f]) :
             Cardinality({g \in 1..NFaces(t) : <<d[2], d[1]>> \in Edges(FaceTable[t][g])}) = 1
             /\ Cardinality({g \in 1..NFaces(t) : d \in Edges(FaceTable[t][g])}) = 1
Fills == SumTo([i \in 1..Len(M.cells) |-> Vol6(M, M.cells[i])], Len(M.cells)) = 48 * Len(pat)
FlatFaces == \A i \in 1..Len(M.cells) : Planar(M, M.cells[i])
AtMostTwo == LET fs == AllFacets(M) IN
   \A i \in 1..Len(fs) : \A F \in fs[i] : Cardinality({j \in 1..Len(fs) : F \in fs[j]}) <= 2
Symmetric == LET fs == AllFacets(M) IN
   \A i, j \in 1..Len(fs) : (\E F \in fs[i] : j \in Across(fs, i, F)) <=> (\E F \in fs[j] : i \in Across(fs, j, F))
\* inside one voxel every facet off the cube's surface is shared
OnCube(F) == \E k \in 1..3 : \E v \in F : \A w \in F : Pts[w + 1][k] = Pts[v + 1][k] /\ (k > 1 \/ TRUE) /\ Pts[v + 1][k] % 2 = 0
InnerShared == LET fs == AllFacets(M) IN
   \A i \in 1..Len(fs) : \A F \in fs[i] : OnCube(F) \/ Across(fs, i, F) # {}
\* two cells of different voxels never share more than one facet
OneFacet == LET fs == AllFacets(M) IN \A i, j \in 1..Len(fs) : i # j => Cardinality(fs[i] \cap fs[j]) <= 1
=============================================================================
