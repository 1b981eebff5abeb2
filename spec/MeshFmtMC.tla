------------------------------ MODULE MeshFmtMC ------------------------------
(* Files of the formats that renumber or reshape cells, as encoders and      *)
(* decoders over all small sequences of cell types: what is decoded is what  *)
(* MeshFmt says is read back.  The meshes themselves are replayed.           *)
EXTENDS MeshFmt, Json
CONSTANTS MaxBlocks, Emit
VARIABLES blocks
Types == {"line", "triangle", "quad", "tetra", "pyramid", "wedge", "hexahedron"}
NN == [line |-> 2, triangle |-> 3, quad |-> 4, tetra |-> 4, pyramid |-> 5, wedge |-> 6, hexahedron |-> 8]
Init == blocks = <<>>
Next == Len(blocks) < MaxBlocks /\ \E t \in Types : \E k \in {1, 2} :
          blocks' = Append(blocks, [t |-> t, k |-> k])
Spec == Init /\ [][Next]_blocks
Id(i) == "i" \o ToString(i)
\* every cell has its own nodes; materials alternate between two ids
RECURSIVE Build(_, _)
Build(bs, v) == IF bs = <<>> THEN <<>>
   ELSE LET w == NN[bs[1].t] IN
        <<[t |-> bs[1].t, n |-> [i \in 1..bs[1].k |-> [q \in 1..w |-> v + (i - 1) * w + q - 1]]]>>
        \o Build(Tail(bs), v + bs[1].k * w)
M == LET b == Build(blocks, 0)
         fl == Flat_(b, 1, 0)
         np == IF fl = <<>> THEN 0 ELSE LET z == fl[Len(fl)].n IN z[Len(z)] + 1
         mat(i) == IF i % 3 = 0 THEN 7 ELSE IF fl[i].t \in TwoD THEN 5 ELSE 2
     IN [dim |-> 3, blocks |-> b, pts |-> [i \in 1..np |-> <<"f0E0", "f0E0", "i" \o ToString(i)>>],
         cd |-> [material |-> [i \in 1..Len(fl) |-> <<Id(mat(i))>>]], pd |-> <<>>,
         fd |-> [a |-> 2, b |-> 5, c |-> 7], ll |-> "~",
         mats |-> [i \in 1..Len(fl) |-> CASE mat(i) = 2 -> "sa" [] mat(i) = 5 -> "sb" [] OTHER -> "sc"]]

\* FLAC3D: two numberings one after the other, zones then faces; groups by number
FlacOrder == [tetra |-> <<0,1,2,3>>, pyramid |-> <<0,1,3,4,2>>, wedge |-> <<0,1,3,2,4,5>>, hexahedron |-> <<0,1,3,4,2,7,5,6>>,
              triangle |-> <<0,1,2>>, quad |-> <<0,1,2,3>>]
\* the mirrored order, used when the first four nodes are left-handed
FlacMirror == [tetra |-> <<0,2,1,3>>, pyramid |-> <<0,3,1,4,2>>, wedge |-> <<0,2,3,1,5,4>>, hexahedron |-> <<0,3,1,4,2,5,7,6>>]
FlacFile(mir) ==
   LET K == Kept("flac3d", M)
       ord(c) == IF c.t \in ThreeD /\ mir THEN FlacMirror[c.t] ELSE FlacOrder[c.t]
   IN [recs |-> [j \in 1..Len(K) |-> [id |-> j, t |-> K[j].t, n |-> Perm(K[j].n, ord(K[j]))]],
       groups |-> {<<M.mats[K[j].i], j>> : j \in 1..Len(K)}]
FlacMesh(f) ==
   LET blk == [j \in 1..Len(f.recs) |-> [t |-> f.recs[j].t, n |-> <<Perm(f.recs[j].n, FlacBack[f.recs[j].t])>>]]
   IN [M EXCEPT !.blocks = blk, !.cd = [material |-> [j \in 1..Len(blk) |-> <<"i1">>]],
                !.mats = [j \in 1..Len(blk) |-> (CHOOSE g \in f.groups : g[2] = j)[1]]]
FlacOK == Impossible("flac3d", M) \/ (ReadBack("flac3d", M, FlacMesh(FlacFile(FALSE))) = {} /\ ReadBack("flac3d", M, FlacMesh(FlacFile(TRUE))) = {})

\* Tecplot: one zone, degenerate cells
TecOrder == [triangle |-> <<0,1,2,2>>, quad |-> <<0,1,2,3>>, tetra |-> <<0,1,2,2,3,3,3,3>>, pyramid |-> <<0,1,2,3,4,4,4,4>>,
             wedge |-> <<0,1,4,3,2,2,5,5>>, hexahedron |-> <<0,1,2,3,4,5,6,7>>]
TecMesh ==
   LET K == Kept("tecplot", M) z == TecZone(M) IN
   [M EXCEPT !.blocks = <<[t |-> z, n |-> [j \in 1..Len(K) |-> IF K[j].t = z THEN K[j].n ELSE Perm(K[j].n, TecOrder[K[j].t])]]>>,
             !.cd = [material |-> [j \in 1..Len(K) |-> M.cd["material"][K[j].i]]],
             !.mats = [j \in 1..Len(K) |-> M.cd["material"][K[j].i][1]]]
TecOK == Impossible("tecplot", M) \/ ReadBack("tecplot", M, TecMesh) = {}
\* a mutation of any of these is noticed
Sharp == (Len(blocks) > 0 /\ ~Impossible("flac3d", M)) =>
   LET f == FlacFile(FALSE) IN
   /\ Len(f.recs) > 1 => ReadBack("flac3d", M, FlacMesh([f EXCEPT !.recs = Tail(@)])) # {}
   /\ \A j \in 1..Len(f.recs) : f.recs[j].t \in {"hexahedron", "wedge", "pyramid"} =>
         ReadBack("flac3d", M, FlacMesh([f EXCEPT !.recs[j].n = <<@[2], @[1]>> \o SubSeq(@, 3, Len(@))])) # {}
Emitted == (Emit = 1 /\ blocks # <<>>) => PrintT("@MESH " \o ToJson(blocks))
=============================================================================
