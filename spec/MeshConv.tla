-------------------------------- MODULE MeshConv --------------------------------
(***************************************************************************)
(* Meshes of meshio, gmsh and PyVista taken over as ToughIO meshes, and    *)
(* back; and which material every cell has.                                *)
(* A mesh is [pts, blocks, cd, pd, fd, mats, ps, cs]: points (rows of      *)
(* canonical numbers), blocks [t, n], data by name (a row per cell or      *)
(* point), field data by name (canonical numbers), the material of every   *)
(* cell as the library tells it, point and cell sets.                      *)
(***************************************************************************)
EXTENDS Tables
Empty == [x \in {} |-> x]
Keys(d) == DOMAIN d
RECURSIVE Join(_)
Join(q) == IF q = <<>> THEN <<>> ELSE q[1] \o Join(Tail(q))
Flat(bs) == Join([b \in 1..Len(bs) |-> [k \in 1..Len(bs[b].n) |-> [t |-> bs[b].t, n |-> bs[b].n[k]]]])

\* ---- cell types ------------------------------------------------------------------
\* what VTK calls by number: name, nodes, dimension
VtkTable == {<<1, "vertex", 1, 0>>, <<3, "line", 2, 1>>, <<5, "triangle", 3, 2>>, <<9, "quad", 4, 2>>, <<10, "tetra", 4, 3>>,
   <<12, "hexahedron", 8, 3>>, <<13, "wedge", 6, 3>>, <<14, "pyramid", 5, 3>>, <<15, "penta_prism", 10, 3>>, <<16, "hexa_prism", 12, 3>>,
   <<21, "line3", 3, 1>>, <<22, "triangle6", 6, 2>>, <<23, "quad8", 8, 2>>, <<24, "tetra10", 10, 3>>, <<25, "hexahedron20", 20, 3>>,
   <<26, "wedge15", 15, 3>>, <<27, "pyramid13", 13, 3>>, <<28, "quad9", 9, 2>>, <<29, "hexahedron27", 27, 3>>, <<30, "quad6", 6, 2>>,
   <<31, "wedge12", 12, 3>>, <<32, "wedge18", 18, 3>>, <<33, "hexahedron24", 24, 3>>, <<34, "triangle7", 7, 2>>, <<35, "line4", 4, 1>>}
VtkRow == [v \in {r[1] : r \in VtkTable} |-> CHOOSE r \in VtkTable : r[1] = v]
VtkOf == [t \in {r[2] : r \in VtkTable} |-> (CHOOSE r \in VtkTable : r[2] = t)[1]]
NDim(t) == IF StartsWith(t, "polygon") THEN 2 ELSE VtkRow[VtkOf[t]][4]
\* pixels and voxels have their nodes by rows, quads and hexahedra around
\* place of node k of a pixel or voxel along each axis
At(k) == <<k % 2, (k \div 2) % 2, k \div 4>>
PixelOrder == <<0, 1, 3, 2>>
VoxelOrder == <<0, 1, 3, 2, 4, 5, 7, 6>>
Supported(v) == v \in DOMAIN VtkRow \/ v \in {7, 8, 11}
FromVtk(c) ==
   CASE c.v = 7 -> [t |-> "polygon" \o ToString(Len(c.n)), n |-> c.n]
     [] c.v = 8 -> [t |-> "quad", n |-> [k \in 1..4 |-> c.n[PixelOrder[k] + 1]]]
     [] c.v = 11 -> [t |-> "hexahedron", n |-> [k \in 1..8 |-> c.n[VoxelOrder[k] + 1]]]
     [] OTHER -> [t |-> VtkRow[c.v][2], n |-> c.n]
ToVtk(c) == [v |-> VtkOf[c.t], n |-> c.n]

\* ---- materials -------------------------------------------------------------------
\* field data that give a material an id and a dimension
WholeNumber(v) == IsInt(v) \/ (IsFloat(v) /\ ~Special(v) /\ FExp(v) >= 0)
Whole(v) == IF IsInt(v) THEN v ELSE "i" \o FSign(v) \o FDigs(v) \o Rep("0", FExp(v))
WholeOrZero(v) == IF v = "f0E0" THEN "i0" ELSE IF WholeNumber(v) THEN Whole(v) ELSE v
IsMat(q) == Len(q) = 2 /\ \A k \in 1..2 : WholeNumber(q[k])
MatIds(fd) == [k \in {k \in Keys(fd) : IsMat(fd[k]) /\ WholeOrZero(fd[k][2]) \in {"i0", "i1", "i2", "i3"}} |-> <<WholeOrZero(fd[k][1]), WholeOrZero(fd[k][2])>>]
\* names of the material with id i of a cell of d dimensions: those of that
\* dimension first; 
NamesOf(ids, i, d) ==
   LET exact == {k \in Keys(ids) : ids[k] = <<i, "i" \o ToString(d)>>} any == {k \in Keys(ids) : ids[k][1] = i}
   IN IF exact # {} THEN exact ELSE any
AllNamed(ids, cells, mat) == \A c \in 1..Len(cells) : NamesOf(ids, WholeOrZero(mat[c][1]), NDim(cells[c].t)) # {}
\* may the library say that cell c is of material m?
MatsOK(M) ==
   LET ids == MatIds(M.fd) cells == Flat(M.blocks) mat == M.cd["material"] IN
   /\ Len(M.mats) = Len(cells)
   /\ IF Keys(ids) # {} /\ AllNamed(ids, cells, mat)
      THEN \A c \in 1..Len(cells) : LET S == NamesOf(ids, WholeOrZero(mat[c][1]), NDim(cells[c].t)) IN
              Cardinality(S) > 1 \/ M.mats[c] \in {"s" \o k : k \in S}
      ELSE \A c \in 1..Len(cells) : WholeOrZero(M.mats[c]) = WholeOrZero(mat[c][1])

\* ---- taken over ------------------------------------------------------------------
MatKeys == {"material", "gmsh:physical", "medit:ref"}
MaterialKey(cd) == Keys(cd) \cap MatKeys
SameNumbers(a, b) == Len(a) = Len(b) /\ \A r \in 1..Len(a) : Len(a[r]) = Len(b[r]) /\ \A q \in 1..Len(a[r]) :
    a[r][q] = b[r][q] \/ (~IsStr(a[r][q]) /\ ~IsStr(b[r][q]) /\ WholeOrZero(a[r][q]) = WholeOrZero(b[r][q]))
SameDict(a, b) == Keys(a) = Keys(b) /\ \A k \in Keys(a) : SameNumbers(a[k], b[k])
\* data names with blanks replaced
Blanked(d) == [k \in {Under(x) : x \in Keys(d)} |-> d[CHOOSE x \in Keys(d) : Under(x) = k]]
\* the default material: of all cells, with an id that names nothing else
Defaulted(M, src, name) ==
   /\ "material" \in Keys(M.cd) /\ name \in Keys(MatIds(M.fd))
   /\ LET id == MatIds(M.fd)[name][1] IN
      /\ \A c \in 1..Len(M.cd["material"]) : WholeOrZero(M.cd["material"][c][1]) = id
      /\ \A k \in Keys(MatIds(M.fd)) \ {name} : MatIds(M.fd)[k][1] # id
   /\ \A c \in 1..Len(M.mats) : M.mats[c] = "s" \o name
   /\ Keys(M.fd) = Keys(src.fd) \cup {name} /\ \A k \in Keys(src.fd) \ {name} : M.fd[k] = src.fd[k]
Without(d, k) == [x \in Keys(d) \ {k} |-> d[x]]
\* X: mesh of meshio, M: what it became
FromMeshio(X, name, M) ==
   LET mk == MaterialKey(X.cd) IN
   If(M.pts # X.pts, "points") \cup If(Flat(M.blocks) # Flat(X.blocks), "cells")
   \cup If(~SameDict(M.pd, X.pd), "point_data")
   \cup If(M.ps # X.ps, "point_sets") \cup If(M.cs # X.cs, "cell_sets")
   \cup (IF mk = {} THEN If(~SameDict(Without(M.cd, "material"), X.cd), "cell_data") \cup If(~Defaulted(M, X, name), "default_material")
         ELSE LET k == CHOOSE k \in mk : TRUE IN
              If(~SameDict(M.cd, [x \in (Keys(X.cd) \ {k}) \cup {"material"} |-> IF x = "material" THEN X.cd[k] ELSE X.cd[x]]), "cell_data")
              \cup If(M.fd # X.fd, "field_data")
              \cup (IF "material" \notin Keys(M.cd) \/ Flat(M.blocks) # Flat(X.blocks) THEN {} ELSE If(~MatsOK(M), "materials")))
\* G: grid of PyVista [pts, cells, pd, cd]
FromPyvista(G, name, M) ==
   If(M.pts # G.pts, "points") \cup If(Flat(M.blocks) # [c \in 1..Len(G.cells) |-> FromVtk(G.cells[c])], "cells")
   \cup If(~SameDict(M.pd, Blanked(G.pd)), "point_data")
   \cup (IF "material" \in Keys(G.cd) THEN If(~SameDict(M.cd, Blanked(G.cd)), "cell_data") \cup
             If(~(Len(M.mats) = Len(G.cd["material"]) /\ \A c \in 1..Len(M.mats) : WholeOrZero(M.mats[c]) = WholeOrZero(G.cd["material"][c][1])), "materials")
         ELSE If(~SameDict(Without(M.cd, "material"), Blanked(G.cd)), "cell_data") \cup If(~Defaulted(M, [fd |-> Empty], name), "default_material"))
\* ---- and back --------------------------------------------------------------------
Pad3(p) == IF Len(p) = 2 THEN p \o <<"f0E0">> ELSE p
ToPyvista(M, G) ==
   If(G.pts # [i \in 1..Len(M.pts) |-> Pad3(M.pts[i])], "points") 
   \cup If(G.cells # (LET f == Flat(M.blocks) IN [c \in 1..Len(f) |-> ToVtk(f[c])]), "cells")
   \cup If(~SameDict(G.pd, M.pd), "point_data") \cup If(~SameDict(G.cd, M.cd), "cell_data")
ToMeshio(M, X) ==
   If(X.pts # M.pts, "points") \cup If(X.blocks # M.blocks, "cells") \cup If(~SameDict(X.pd, M.pd), "point_data")
   \cup If(~SameDict(X.cd, M.cd), "cell_data") \cup If(X.sizes # [b \in 1..Len(M.blocks) |-> Len(M.blocks[b].n)] /\ Keys(M.cd) # {}, "cell_data_blocks")
   \cup If(X.fd # M.fd, "field_data") \cup If(X.ps # M.ps, "point_sets") \cup If(X.cs # M.cs, "cell_sets")

\* ---- cells by type ---------------------------------------------------------------
\* types in the order of their first block, all cells of a type in order
RECURSIVE TypesOf(_)
TypesOf(bs) == IF bs = <<>> THEN <<>> ELSE LET r == TypesOf(SubSeq(bs, 1, Len(bs) - 1)) t == bs[Len(bs)].t IN IF t \in SetOf(r) THEN r ELSE Append(r, t)
ByType(bs) == [k \in 1..Len(TypesOf(bs)) |-> [t |-> TypesOf(bs)[k], n |-> Join([b \in 1..Len(bs) |-> IF bs[b].t = TypesOf(bs)[k] THEN bs[b].n ELSE <<>>])]]

\* ---- gmsh files (format 2.2, text) -----------------------------------------------
GmshName == ("1" :> "line" @@ "2" :> "triangle" @@ "3" :> "quad" @@ "4" :> "tetra" @@ "5" :> "hexahedron" @@ "6" :> "wedge" @@ "7" :> "pyramid"
             @@ "8" :> "line3" @@ "9" :> "triangle6" @@ "15" :> "vertex")
Section(lines, s) == LET i == CHOOSE i \in 1..Len(lines) : Strip(lines[i]) = "$" \o s j == CHOOSE j \in 1..Len(lines) : Strip(lines[j]) = "$End" \o s IN SubSeq(lines, i + 1, j - 1)
HasSection(lines, s) == \E i \in 1..Len(lines) : Strip(lines[i]) = "$" \o s
Gmsh(lines) ==
   LET nodes == [r \in 1..(Len(Section(lines, "Nodes")) - 1) |-> Toks(Section(lines, "Nodes")[r + 1])]
       els == [r \in 1..(Len(Section(lines, "Elements")) - 1) |-> Toks(Section(lines, "Elements")[r + 1])]
       names == IF HasSection(lines, "PhysicalNames") THEN [r \in 1..(Len(Section(lines, "PhysicalNames")) - 1) |-> Section(lines, "PhysicalNames")[r + 1]] ELSE <<>>
       place == [w \in {nodes[r][1] : r \in 1..Len(nodes)} |-> (CHOOSE r \in 1..Len(nodes) : nodes[r][1] = w) - 1]
       nt(w) == ToNat(w[3])
       nm(s) == LET a == Find(s, {Q}, 1) IN SubSeq(s, a + 1, Find(s, {Q}, a + 1) - 1)
   IN [pts |-> [r \in 1..Len(nodes) |-> Nums(Tail(nodes[r]))],
       cells |-> [r \in 1..Len(els) |-> [t |-> GmshName[els[r][2]], n |-> [k \in 1..(Len(els[r]) - 3 - nt(els[r])) |-> place[els[r][3 + nt(els[r]) + k]]]]],
       tags |-> [r \in 1..Len(els) |-> "i" \o els[r][4]],
       fd |-> [x \in {nm(names[r]) : r \in 1..Len(names)} |-> LET w == Toks(names[CHOOSE r \in 1..Len(names) : nm(names[r]) = x]) IN <<"i" \o w[2], "i" \o w[1]>>]]
FromGmsh(lines, M) ==
   LET X == Gmsh(lines) IN
   If(M.pts # X.pts, "points") \cup If(Flat(M.blocks) # X.cells, "cells")
   \cup If(M.fd # X.fd, "field_data")
   \cup (IF Flat(M.blocks) # X.cells THEN {}
         ELSE IF "material" \notin Keys(M.cd) THEN {"materials"}
         ELSE If([c \in 1..Len(X.tags) |-> WholeOrZero(M.cd["material"][c][1])] # X.tags, "material_ids") \cup If(~MatsOK(M), "materials"))

\* ---- later edits -----------------------------------------------------------------
SetNames(mats, name, S) == [c \in 1..Len(mats) |-> IF c \in S THEN "s" \o name ELSE mats[c]]
Flats(M) == {c \in 1..Len(Flat(M.blocks)) : Flat(M.blocks)[c].t \in {"triangle", "quad"}}
RECURSIVE Pick(_, _, _)
Pick(q, S, i) == IF i > Len(q) THEN <<>> ELSE (IF i \in S THEN <<q[i]>> ELSE <<>>) \o Pick(q, S, i + 1)
=============================================================================
