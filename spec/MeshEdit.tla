------------------------------- MODULE MeshEdit -------------------------------
(***************************************************************************)
(* Editing meshes.  A mesh is                                              *)
(*   [dim, pts, blocks, cd, pd, fd, mats, vols]                            *)
(* pts: integer points; blocks: [t, n] with 0-based node lists; cd and pd: *)
(* name -> one value (a sequence of canonical strings) per cell or point;  *)
(* fd: material name -> id; mats: material of every cell as the library    *)
(* names it; vols: volume of every cell, canonical (or <<>>).              *)
(* Each edit is a relation between the mesh before and the mesh after.     *)
(***************************************************************************)
EXTENDS Text
T == INSTANCE Topo

RECURSIVE Flat_(_, _)
Flat_(bs, b) == IF b > Len(bs) THEN <<>>
                ELSE [i \in 1..Len(bs[b].n) |-> [t |-> bs[b].t, n |-> bs[b].n[i], b |-> b]] \o Flat_(bs, b + 1)
Flat(M) == Flat_(M.blocks, 1)
NCells(M) == Len(Flat(M))
Co(M, v) == M.pts[v + 1]
Shape(M, c) == [k \in 1..Len(c.n) |-> Co(M, c.n[k])]
SetOf(s) == {s[i] : i \in 1..Len(s)}
Keys(d) == DOMAIN d

\* one entry per cell and per point, nodes exist, points have the right dimension
Consistent(M) ==
   /\ \A k \in Keys(M.cd) : Len(M.cd[k]) = NCells(M)
   /\ \A k \in Keys(M.pd) : Len(M.pd[k]) = Len(M.pts)
   /\ Len(M.mats) = NCells(M)
   /\ \A c \in SetOf(Flat(M)) : \A k \in 1..Len(c.n) : c.n[k] \in 0..(Len(M.pts) - 1)
   /\ \A i \in 1..Len(M.pts) : Len(M.pts[i]) = M.dim
   /\ M.vols # <<>> => Len(M.vols) = NCells(M)

SameGeo(M, N) == M.dim = N.dim /\ M.pts = N.pts /\ M.blocks = N.blocks /\ M.vols = N.vols
\* ids stand for the names of all cells while the material of one cell has no name
SameMat(a, b) == a = b \/ IsInt(a)
Same(M, N) == SameGeo(M, N) /\ M.cd = N.cd /\ M.pd = N.pd /\ M.fd = N.fd /\ M.mats = N.mats

\* ---- materials -------------------------------------------------------------
Id(i) == "i" \o ToString(i)
Named(M) == "material" \in Keys(M.cd) /\ Keys(M.fd) # {}
            /\ \A c \in 1..NCells(M) : \E k \in Keys(M.fd) : Id(M.fd[k]) = M.cd["material"][c][1]
\* the cells in S get material nm, every other cell keeps its own
SetMaterialRel(M, N, nm, S) ==
   /\ SameGeo(M, N) /\ M.pd = N.pd
   /\ Keys(N.cd) = Keys(M.cd) /\ \A k \in Keys(M.cd) \ {"material"} : N.cd[k] = M.cd[k]
   /\ IF S = {} THEN N.mats = M.mats
      ELSE /\ nm \in Keys(N.fd)
           /\ \A k \in Keys(M.fd) : k \in Keys(N.fd)
           /\ (\A c \in 1..NCells(M) : IsInt(M.cd["material"][c][1])) =>      \* ids, not averages of ids
                 \A c \in 1..NCells(M) : IF c \in S THEN N.cd["material"][c] = <<Id(N.fd[nm])>>
                                         ELSE N.cd["material"][c] = M.cd["material"][c]
           /\ (Named(M) \/ S = 1..NCells(M)) =>
                 N.mats = [c \in 1..NCells(M) |-> IF c \in S THEN "s" \o nm ELSE M.mats[c]]
           \* a new name is the name of no other cell
           /\ (nm \notin Keys(M.fd) /\ \A c \in 1..NCells(M) : IsInt(M.cd["material"][c][1])) =>
                 \A c \in (1..NCells(M)) \ S : M.cd["material"][c] # <<Id(N.fd[nm])>>
           \* two names never share an id
           /\ (\A a, b \in Keys(M.fd) : a # b => M.fd[a] # M.fd[b]) => (\A a, b \in Keys(N.fd) : a # b => N.fd[a] # N.fd[b])

AddCellData(M, k, v) == [M EXCEPT !.cd = [x \in Keys(M.cd) \cup {k} |-> IF x = k THEN v ELSE M.cd[x]]]
AddPointData(M, k, v) == [M EXCEPT !.pd = [x \in Keys(M.pd) \cup {k} |-> IF x = k THEN v ELSE M.pd[x]]]

\* ---- duplicates ------------------------------------------------------------
Attr(M, i) == [k \in Keys(M.cd) |-> M.cd[k][i]]
PAttr(M, i) == [k \in Keys(M.pd) |-> M.pd[k][i]]
PruneRel(M, N) ==
   LET fm == Flat(M)
       fn == Flat(N)
       corner(A, c) == SetOf(Shape(A, c))
   IN /\ N.dim = M.dim /\ Keys(N.cd) = Keys(M.cd) /\ Keys(N.pd) = Keys(M.pd) /\ N.fd = M.fd
      /\ SetOf(N.pts) = SetOf(M.pts) /\ Cardinality(SetOf(N.pts)) = Len(N.pts)
      /\ \A j \in 1..Len(N.pts) : \E i \in 1..Len(M.pts) : M.pts[i] = N.pts[j] /\ PAttr(M, i) = PAttr(N, j)
      /\ Len(N.blocks) = Len(M.blocks)
      /\ \A b \in 1..Len(M.blocks) :
            LET cm == {corner(M, [n |-> M.blocks[b].n[i]]) : i \in 1..Len(M.blocks[b].n)}
                cn == {corner(N, [n |-> N.blocks[b].n[i]]) : i \in 1..Len(N.blocks[b].n)}
            IN N.blocks[b].t = M.blocks[b].t /\ cm = cn /\ Cardinality(cn) = Len(N.blocks[b].n)
      \* what survives is one of the cells of before, with all that belongs to it
      /\ \A j \in 1..Len(fn) : \E i \in 1..Len(fm) :
            /\ fm[i].b = fn[j].b /\ Shape(M, fm[i]) = Shape(N, fn[j]) /\ Attr(M, i) = Attr(N, j)
            /\ SameMat(M.mats[i], N.mats[j])
            /\ (M.vols # <<>> /\ N.vols # <<>>) => M.vols[i] = N.vols[j]

\* ---- extrusion ---------------------------------------------------------------
Extruded == [triangle |-> "wedge", quad |-> "hexahedron"]
Base3(M, p, ax) == IF M.dim = 3 THEN p
   ELSE CASE ax = 2 -> <<p[1], p[2], 0>> [] ax = 1 -> <<p[1], 0, p[2]>> [] OTHER -> <<0, p[2], p[1]>>
Lift(p, ax, h) == [p EXCEPT ![ax + 1] = @ + h]
ExtrudeRel(M, N, hs, ax) ==
   LET nh == Len(hs)
       off == [i \in 0..nh |-> T!SumTo(hs, i)]
       pt(v, i) == Lift(Base3(M, Co(M, v), ax), ax, off[i])
       eb == SelectSeq([b \in 1..Len(M.blocks) |-> b], LAMBDA b : M.blocks[b].t \in DOMAIN Extruded)
       fm == Flat(M)
       fn == Flat(N)
       \* new cell j is old cell i raised through layer l
       is(j, i, l) ==
          LET n == Len(fm[i].n) IN
          /\ fn[j].t = Extruded[fm[i].t] /\ eb[fn[j].b] = fm[i].b
          /\ \/ \A k \in 1..n : Co(N, fn[j].n[k]) = pt(fm[i].n[k], l - 1) /\ Co(N, fn[j].n[n + k]) = pt(fm[i].n[k], l)
             \/ \A k \in 1..n : Co(N, fn[j].n[k]) = pt(fm[i].n[k], l) /\ Co(N, fn[j].n[n + k]) = pt(fm[i].n[k], l - 1)
          /\ Attr(M, i) = Attr(N, j) /\ SameMat(M.mats[i], N.mats[j])
       old == {i \in 1..Len(fm) : fm[i].t \in DOMAIN Extruded}
   IN /\ N.dim = 3 /\ Keys(N.cd) = Keys(M.cd) /\ Keys(N.pd) = Keys(M.pd) /\ N.fd = M.fd
      /\ Len(N.pts) = (nh + 1) * Len(M.pts)
      /\ \A j \in 1..Len(N.pts) : \E i \in 1..Len(M.pts) : \E l \in 0..nh :
            N.pts[j] = pt(i - 1, l) /\ PAttr(M, i) = PAttr(N, j)
      /\ Len(N.blocks) = Len(eb) /\ \A b \in 1..Len(eb) : Len(N.blocks[b].n) = nh * Len(M.blocks[eb[b]].n)
      /\ \A j \in 1..Len(fn) : \E i \in old : \E l \in 1..nh : is(j, i, l)
      /\ \A i \in old : \A l \in 1..nh : \E j \in 1..Len(fn) : is(j, i, l)
Flat2D(M, ax) == M.dim = 2 \/ \A i \in 1..Len(M.pts) : M.pts[i][ax + 1] = M.pts[1][ax + 1]

\* ---- transfer of data ------------------------------------------------------------
Whole(v) == IsInt(v) \/ (IsFloat(v) /\ v # "fnan" /\ ~StartsWith(v, "finf") /\ ~StartsWith(v, "f-inf") /\ FExp(v) >= 0 /\ Len(FDigs(v)) + FExp(v) <= 4)
WholeVal(v) == IF IsInt(v) THEN IntVal(v)
               ELSE (IF FSign(v) = "-" THEN -1 ELSE 1) * ToNat(FDigs(v) \o Rep("0", FExp(v)))
Entry(d, k, i) == d[k][i]
RECURSIVE WSum(_, _, _, _, _)
WSum(d, k, idx, w, q) == IF idx = <<>> THEN 0
   ELSE w[idx[1]] * WholeVal(d[k][idx[1]][q]) + WSum(d, k, Tail(idx), w, q)
RECURSIVE WTot(_, _)
WTot(idx, w) == IF idx = <<>> THEN 0 ELSE w[idx[1]] + WTot(Tail(idx), w)
\* value o is the average of entries idx of d[k] with weights w
Average(o, d, k, idx, w) ==
   /\ Len(o) = Len(d[k][idx[1]])
   /\ \A q \in 1..Len(o) : (\A x \in SetOf(idx) : Whole(d[k][x][q])) =>
         T!FIsRatio(AsFloat(o[q]), WSum(d, k, idx, w, q), WTot(idx, w), 0, 1)
CellsAt(fm, v) == SelectSeq([i \in 1..Len(fm) |-> i], LAMBDA i : \E k \in 1..Len(fm[i].n) : fm[i].n[k] = v)
CellToPointRel(M, N, planar) ==
   LET fm == Flat(M)
       w == [i \in 1..Len(fm) |-> T!Vol6([pts |-> M.pts], fm[i])]
   IN /\ SameGeo(M, N) /\ N.cd = <<>> /\ N.fd = M.fd
      /\ Keys(N.pd) = Keys(M.pd) \cup Keys(M.cd)
      /\ \A k \in Keys(M.pd) \ Keys(M.cd) : N.pd[k] = M.pd[k]
      /\ planar => \A k \in Keys(M.cd) : \A v \in 1..Len(M.pts) : Average(N.pd[k][v], M.cd, k, CellsAt(fm, v - 1), w)
UsedPoints(M) == {c.n[k] : c \in SetOf(Flat(M)), k \in 1..3} \cup
                 UNION {{c.n[k] : k \in 1..Len(c.n)} : c \in SetOf(Flat(M))}
PointToCellRel(M, N) ==
   LET fm == Flat(M)
       ones == [i \in 1..Len(M.pts) |-> 1]
   IN /\ SameGeo(M, N) /\ N.pd = <<>> /\ N.fd = M.fd
      /\ Keys(N.cd) = Keys(M.pd) \cup Keys(M.cd)
      /\ \A k \in Keys(M.cd) \ Keys(M.pd) : N.cd[k] = M.cd[k]
      /\ \A k \in Keys(M.pd) : \A i \in 1..Len(fm) :
            Average(N.cd[k][i], M.pd, k, [q \in 1..Len(fm[i].n) |-> fm[i].n[q] + 1], ones)

\* ---- conversions --------------------------------------------------------------------
\* the same numbers, whatever their type
Num(v) == IF IsInt(v) \/ IsFloat(v) THEN AsFloat(v) ELSE v
SameVals(a, b) == Len(a) = Len(b) /\ \A i \in 1..Len(a) : Len(a[i]) = Len(b[i]) /\ \A q \in 1..Len(a[i]) : Num(a[i][q]) = Num(b[i][q])
Plain(fs) == [i \in 1..Len(fs) |-> [t |-> fs[i].t, n |-> fs[i].n]]
Pad(p) == IF Len(p) = 2 THEN <<p[1], p[2], 0>> ELSE p
ConvertRel(M, N, how) ==
   /\ IF how = "pyvista" THEN N.pts = [i \in 1..Len(M.pts) |-> Pad(M.pts[i])] ELSE N.pts = M.pts
   /\ Plain(Flat(N)) = Plain(Flat(M))
   /\ Keys(N.cd) = Keys(M.cd) \cup {"material"} /\ Keys(N.pd) = Keys(M.pd)
   /\ \A k \in Keys(M.cd) : SameVals(N.cd[k], M.cd[k])
   /\ \A k \in Keys(M.pd) : SameVals(N.pd[k], M.pd[k])
   /\ IF "material" \notin Keys(M.cd) THEN \A c \in 1..NCells(N) : N.mats[c] = "sdfalt"
      ELSE IF how = "meshio" THEN N.mats = M.mats /\ N.fd = M.fd
      ELSE \A c \in 1..NCells(N) : Num(N.mats[c]) = Num(M.cd["material"][c][1])
=============================================================================
