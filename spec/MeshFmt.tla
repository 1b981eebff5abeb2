-------------------------------- MODULE MeshFmt --------------------------------
(***************************************************************************)
(* What a mesh file of each format gives back.  A mesh is                  *)
(*   [dim, pts, blocks, cd, pd, fd, mats, ll] as in MeshEdit, with         *)
(* coordinates and values canonical strings.                               *)
(***************************************************************************)
EXTENDS Text
T == INSTANCE Topo
SetOf(s) == {s[i] : i \in 1..Len(s)}
Keys(d) == DOMAIN d

ThreeD == {"tetra", "pyramid", "wedge", "hexahedron"}
TwoD == {"triangle", "quad"}

\* cells in order, with their place among all cells
RECURSIVE Flat_(_, _, _)
Flat_(bs, b, i) == IF b > Len(bs) THEN <<>>
   ELSE [k \in 1..Len(bs[b].n) |-> [t |-> bs[b].t, n |-> bs[b].n[k], i |-> i + k]] \o Flat_(bs, b + 1, i + Len(bs[b].n))
Flat(M) == Flat_(M.blocks, 1, 0)

\* ---- what is kept -----------------------------------------------------------
Kept(f, M) ==
   LET fs == Flat(M)
       d3 == SelectSeq(fs, LAMBDA c : c.t \in ThreeD)
       d2 == SelectSeq(fs, LAMBDA c : c.t \in TwoD)
       d23 == SelectSeq(fs, LAMBDA c : c.t \in ThreeD \cup TwoD)
   IN CASE f \in {"flac3d", "flac3d-binary"} -> d3 \o d2
        [] f = "tecplot" -> IF d3 = <<>> THEN d2 ELSE d3
        [] OTHER -> fs
\* formats that cannot hold the mesh at all
Impossible(f, M) ==
   CASE f \in {"flac3d", "flac3d-binary"} -> \A c \in SetOf(Flat(M)) : c.t \notin ThreeD
     [] f = "tecplot" -> \A c \in SetOf(Flat(M)) : c.t \notin ThreeD \cup TwoD
     [] OTHER -> FALSE

\* Tecplot: all cells of one zone have the shape of the zone
ZoneTypes(M) == {c.t : c \in SetOf(Flat(M)) } \cap (ThreeD \cup TwoD)
TecZone(M) ==
   LET z == ZoneTypes(M) d3 == z \cap ThreeD IN
   IF Cardinality(z) = 1 THEN (CASE z = {"triangle"} -> "triangle" [] z = {"quad"} -> "quad"
                                 [] z = {"tetra"} -> "tetra" [] OTHER -> "hexahedron")
   ELSE IF d3 = {} THEN "quad" ELSE "hexahedron"

\* facets of a hexahedron whose nodes may coincide
Solid(n) == {F \in {SetOf(r) : r \in SetOf(T!Rings([t |-> "hexahedron", n |-> n]))} : Cardinality(F) >= 3}
\* ring of a cell with nodes repeated next to each other collapsed
RECURSIVE Squeeze(_)
Squeeze(s) == IF Len(s) <= 1 THEN s
              ELSE IF s[1] = s[2] THEN Squeeze(Tail(s)) ELSE <<s[1]>> \o Squeeze(Tail(s))

\* c is the cell before, d the cell read
SameCell(f, c, d, zone) ==
   IF f \in {"flac3d", "flac3d-binary"} /\ c.t \in ThreeD
      THEN d.t = c.t /\ SetOf(d.n) = SetOf(c.n) /\ T!Facets(d) = T!Facets(c)
   ELSE IF f = "tecplot" /\ c.t \in ThreeD /\ zone = "hexahedron" /\ c.t # "hexahedron"
      THEN d.t = zone /\ SetOf(d.n) = SetOf(c.n) /\ Solid(d.n) = T!Facets(c)
   ELSE IF f = "tecplot" /\ c.t = "triangle" /\ zone = "quad"
      THEN d.t = "quad" /\ T!SameRing(Squeeze(d.n), c.n)
   ELSE d.t = c.t /\ d.n = c.n

\* ---- numbers -----------------------------------------------------------------
Num(v) == IF v = "bT" THEN "f1E0" ELSE IF v = "bF" THEN "f0E0" ELSE IF IsInt(v) THEN AsFloat(v) ELSE v
Special(v) == v = "fnan" \/ v = "finf" \/ v = "f-inf" \/ v = "f0E0"
\* equal to 14 significant digits: first 17 digits as two numbers, compared with borrow
RECURSIVE Zeros(_)
Zeros(n) == IF n <= 0 THEN "" ELSE "0" \o Zeros(n - 1)
Pad17(d) == d \o Zeros(17 - Len(d))
Top(v) == FExp(v) + Len(FDigs(v))
Hi(v) == ToIntS(SubSeq(Pad17(FDigs(v)), 1, 8))
Lo(v) == ToIntS(SubSeq(Pad17(FDigs(v)), 9, 17))
Close14(a, b) ==
   \/ a = b
   \/ /\ ~Special(a) /\ ~Special(b) /\ FSign(a) = FSign(b)
      /\ \/ /\ Top(a) = Top(b)
            /\ \/ Hi(a) = Hi(b) /\ Lo(a) - Lo(b) \in (-200)..200
               \/ Hi(a) = Hi(b) + 1 /\ Lo(a) + (1000000000 - Lo(b)) <= 200
               \/ Hi(b) = Hi(a) + 1 /\ Lo(b) + (1000000000 - Lo(a)) <= 200
         \/ Top(b) = Top(a) + 1 /\ FDigs(b) = "1" /\ Hi(a) = 99999999 /\ Lo(a) > 999999800
SameNum(f, a, b) == IF f = "avsucd" THEN Close14(Num(a), Num(b)) ELSE Num(a) = Num(b)
SameVal(f, a, b) == Len(a) = Len(b) /\ \A q \in 1..Len(a) : SameNum(f, a[q], b[q])

\* ---- names of the arrays --------------------------------------------------------
RECURSIVE Under(_, _)
Under(s, i) == IF i > Len(s) THEN "" ELSE (IF Ch(s, i) = " " THEN "_" ELSE Ch(s, i)) \o Under(s, i + 1)
Renamed(f, k) == IF f \in {"avsucd", "tecplot"} THEN Under(k, 1) ELSE k
\* arrays of d as [name, column (0: all)] after reading
Arrays(f, d, skip) ==
   {<<k, 0>> : k \in {k \in Keys(d) \ skip : f # "tecplot" \/ Len(d[k]) = 0 \/ Len(d[k][1]) = 1}}
   \cup (IF f # "tecplot" THEN {} ELSE UNION {{<<k, q>> : q \in 1..Len(d[k][1])} : k \in {k \in Keys(d) \ skip : Len(d[k]) > 0 /\ Len(d[k][1]) > 1}})
NameOf(f, a) == IF a[2] = 0 THEN Renamed(f, a[1]) ELSE Renamed(f, a[1]) \o "_" \o ToString(a[2] - 1)
ValOf(d, a, i) == IF a[2] = 0 THEN d[a[1]][i] ELSE <<d[a[1]][i][a[2]]>>
\* formats that keep arrays
KeepsData(f) == f \notin {"flac3d", "flac3d-binary"}
KeepsNames(f) == f \in {"flac3d", "flac3d-binary", "pickle"}

\* names a material id goes by
MatNames(M, id) ==
   LET nm == {k \in Keys(M.fd) : "i" \o ToString(M.fd[k]) = id}
   IN IF nm # {} THEN {"s" \o k : k \in nm} ELSE {"s" \o Body(id)} \cup (IF id = "i0" THEN {"sNone"} ELSE {})
\* names the material of cell i goes by: its own, when it has one
MatSet(M, i) == IF IsStr(M.mats[i]) THEN {M.mats[i]} ELSE MatNames(M, M.cd["material"][i][1])
\* ---- the whole mesh ----------------------------------------------------------------
Pad(p) == IF Len(p) = 2 THEN p \o <<"f0E0">> ELSE p
Pads(f) == f \in {"avsucd", "vtk", "vtu"}
If(c, k) == IF c THEN {k} ELSE {}
ReadBack(f, M, N) ==
   LET K == Kept(f, M)
       R == Flat(N)
       zone == IF f = "tecplot" THEN TecZone(M) ELSE ""
       ok == Len(R) = Len(K)
       mat == "material" \in Keys(M.cd)
       cds == IF KeepsData(f) THEN Arrays(f, M.cd, IF f = "avsucd" THEN {"material"} ELSE {}) ELSE {}
       pds == IF KeepsData(f) THEN Arrays(f, M.pd, {}) ELSE {}
       extra == IF f \in {"avsucd", "flac3d", "flac3d-binary", "vtk", "vtu", "xdmf"} THEN {"material"} ELSE {}
   IN If(N.pts # [i \in 1..Len(M.pts) |-> IF Pads(f) THEN Pad(M.pts[i]) ELSE M.pts[i]], "points")
      \cup If(~ok, "number_of_cells")
      \cup (IF ~ok THEN {} ELSE
        If(~(\A j \in 1..Len(R) : SameCell(f, K[j], R[j], zone)), "cells")
        \cup If(f = "pickle" /\ N.blocks # M.blocks, "blocks")
        \cup If(~({NameOf(f, a) : a \in cds} \subseteq Keys(N.cd) /\ Keys(N.cd) \subseteq {NameOf(f, a) : a \in cds} \cup extra), "cell_data_names")
        \cup If(Keys(N.pd) # {NameOf(f, a) : a \in pds}, "point_data_names")
        \cup If(~(\A a \in cds : NameOf(f, a) \notin Keys(N.cd) \/
                  (Len(N.cd[NameOf(f, a)]) = Len(K) /\
                   \A j \in 1..Len(R) : SameVal(f, N.cd[NameOf(f, a)][j], ValOf(M.cd, a, K[j].i)))), "cell_data")
        \cup If(~(\A a \in pds : NameOf(f, a) \notin Keys(N.pd) \/
                  (Len(N.pd[NameOf(f, a)]) = Len(M.pts) /\
                   \A j \in 1..Len(M.pts) : SameVal(f, N.pd[NameOf(f, a)][j], ValOf(M.pd, a, j)))), "point_data")
        \cup If(f = "avsucd" /\ ~("material" \in Keys(N.cd) /\ Len(N.cd["material"]) = Len(K) /\
                  \A j \in 1..Len(R) : Num(N.cd["material"][j][1]) =
                      (IF mat THEN Num(M.cd["material"][K[j].i][1]) ELSE "f0E0")), "material_ids")
        \cup If(f = "pickle" /\ mat /\ N.mats # M.mats, "material_names")
        \cup If(f \in {"flac3d", "flac3d-binary"} /\ mat /\ ~(Len(N.mats) = Len(K) /\ \A j \in 1..Len(R) :
                  N.mats[j] \in MatSet(M, K[j].i)), "material_names")
        \* formats without names keep the ids
        \cup If(~KeepsNames(f) /\ KeepsData(f) /\ f # "avsucd" /\ mat /\ ~(Len(N.mats) = Len(K) /\ \A j \in 1..Len(R) :
                  Num(N.mats[j]) = Num(M.cd["material"][K[j].i][1]) \/ N.mats[j] = M.mats[K[j].i]), "material_of_cell"))
      \cup If(f = "pickle" /\ (N.fd # M.fd \/ N.ll # M.ll \/ N.cd # M.cd \/ N.pd # M.pd), "pickle")

\* ---- what the file itself holds ---------------------------------------------------
\* FLAC3D: place of each node of a record in the cell; zones are right-handed
FlacName == [triangle |-> "T3", quad |-> "Q4", tetra |-> "T4", pyramid |-> "P5", wedge |-> "W6", hexahedron |-> "B8"]
FlacBack == [tetra |-> <<0,1,2,3>>, pyramid |-> <<0,1,4,2,3>>, wedge |-> <<0,1,3,2,4,5>>, hexahedron |-> <<0,1,4,2,3,6,7,5>>,
             triangle |-> <<0,1,2>>, quad |-> <<0,1,2,3>>]
Perm(n, o) == [k \in 1..Len(o) |-> n[o[k] + 1]]
V(g, a, b) == [d \in 1..3 |-> g[b + 1][d] - g[a + 1][d]]
Det3(a, b, c) == (a[1] * (b[2] * c[3] - b[3] * c[2])) - (a[2] * (b[1] * c[3] - b[3] * c[1])) + (a[3] * (b[1] * c[2] - b[2] * c[1]))
RightHanded(g, n) == Det3(V(g, n[1], n[2]), V(g, n[1], n[3]), V(g, n[1], n[4])) > 0
\* z, q: [id, t, n] of zones and faces, zg, fg: names -> ids; g: integer coordinates
FlacFileOK(M, z, q, zg, fg, g) ==
   LET K == Kept("flac3d", M)
       d3 == SelectSeq(K, LAMBDA c : c.t \in ThreeD)
       d2 == SelectSeq(K, LAMBDA c : c.t \in TwoD)
       mat == "material" \in Keys(M.cd)
       groups(ds, gs, o) == \A j \in 1..Len(ds) :
            {k \in Keys(gs) : o + j \in SetOf(gs[k])} = IF mat THEN {CHOOSE nm \in {Body(x) : x \in MatSet(M, ds[j].i)} : nm \in Keys(gs)} ELSE {}
       known(ds, gs) == ~mat \/ \A j \in 1..Len(ds) : {Body(x) : x \in MatSet(M, ds[j].i)} \cap Keys(gs) # {}
       once(gs) == \A k \in Keys(gs) : Cardinality(SetOf(gs[k])) = Len(gs[k])
   IN If(Len(z) # Len(d3) \/ Len(q) # Len(d2), "file_cells")
      \cup (IF Len(z) # Len(d3) \/ Len(q) # Len(d2) THEN {} ELSE
           If(~(\A j \in 1..Len(z) : z[j].id = j /\ z[j].t = FlacName[d3[j].t]
                   /\ SetOf(z[j].n) = SetOf(d3[j].n)
                   /\ T!Facets([t |-> d3[j].t, n |-> Perm(z[j].n, FlacBack[d3[j].t])]) = T!Facets(d3[j])), "file_zones")
           \cup If(~(\A j \in 1..Len(z) : RightHanded(g, z[j].n)), "file_orientation")
           \cup If(~(\A j \in 1..Len(q) : q[j].id = Len(z) + j /\ q[j].t = FlacName[d2[j].t] /\ q[j].n = d2[j].n), "file_faces")
           \cup If(~known(d3, zg) \/ ~known(d2, fg) \/ ~once(zg) \/ ~once(fg), "file_groups")
           \cup (IF ~known(d3, zg) \/ ~known(d2, fg) THEN {} ELSE If(~groups(d3, zg, 0) \/ ~groups(d2, fg, Len(z)), "file_groups")))

\* AVS-UCD: material, type and nodes of each cell, numbered from 1
AvsName == [vertex |-> "pt", line |-> "line", triangle |-> "tri", quad |-> "quad", tetra |-> "tet", pyramid |-> "pyr", wedge |-> "prism", hexahedron |-> "hex"]
AvsOrder == [vertex |-> <<0>>, line |-> <<0,1>>, triangle |-> <<0,1,2>>, quad |-> <<0,1,2,3>>, tetra |-> <<0,1,3,2>>, pyramid |-> <<4,0,1,2,3>>,
             wedge |-> <<3,4,5,0,1,2>>, hexahedron |-> <<4,5,6,7,0,1,2,3>>]
AvsFileOK(M, z) ==
   LET K == Flat(M) mat == "material" \in Keys(M.cd) IN
   IF Len(z) # Len(K) THEN {"file_cells"} ELSE
   If(~(\A j \in 1..Len(z) : z[j].id = j /\ z[j].t = AvsName[K[j].t] /\ z[j].n = Perm(K[j].n, AvsOrder[K[j].t])
           /\ z[j].m = IF mat THEN Num(M.cd["material"][j][1]) ELSE "f0E0"), "file_cells")

\* Tecplot: header of the zone
TecKind == [triangle |-> "FETRIANGLE", quad |-> "FEQUADRILATERAL", tetra |-> "FETETRAHEDRON", hexahedron |-> "FEBRICK"]
NVars(d) == IF Keys(d) = {} THEN 0 ELSE LET RECURSIVE sum(_) sum(S) == IF S = {} THEN 0 ELSE LET k == CHOOSE k \in S : TRUE IN (IF Len(d[k]) = 0 THEN 1 ELSE Len(d[k][1])) + sum(S \ {k}) IN sum(Keys(d))
TecFileOK(M, h) ==
   LET K == Kept("tecplot", M)
       np == M.dim + NVars(M.pd)
       nc == NVars(M.cd)
   IN If(h.nodes # Len(M.pts) \/ h.elements # Len(K) \/ h.zone # TecKind[TecZone(M)] \/ h.nvars # np + nc, "file_header")
      \cup If(h.centered # (IF nc = 0 THEN <<>> ELSE <<np + 1, np + nc>>), "file_varlocation")
      \cup If(h.values # np * Len(M.pts) + nc * Len(K) \/ h.rows # Len(K), "file_data")
=============================================================================
