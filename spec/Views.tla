--------------------------------- MODULE Views ---------------------------------
(***************************************************************************)
(* A mesh as its users hold it: what it contains, the calls that change    *)
(* the content, and the views that are derived from the content and must   *)
(* follow it at any moment.  Dictionaries are sequences of [k, v] because  *)
(* their order is observable.                                              *)
(***************************************************************************)
EXTENDS Naturals, Integers, Sequences, FiniteSets, TLC
If(c, k) == IF c THEN {k} ELSE {}
NoMesh == [live |-> "0", pts |-> <<>>, blocks |-> <<>>, pd |-> <<>>, cd |-> <<>>, ps |-> <<>>, fd |-> <<>>]

\* ---- dictionaries ------------------------------------------------------------
KeysOf(d) == {d[i].k : i \in 1..Len(d)}
Has(d, k) == \E i \in 1..Len(d) : d[i].k = k
Get(d, k) == d[CHOOSE i \in 1..Len(d) : d[i].k = k].v
Put(d, k, v) == IF Has(d, k) THEN [i \in 1..Len(d) |-> IF d[i].k = k THEN [k |-> k, v |-> v] ELSE d[i]]
                ELSE Append(d, [k |-> k, v |-> v])
Drop(d, k) == SelectSeq(d, LAMBDA x : x.k # k)
KeySeq(d) == [i \in 1..Len(d) |-> d[i].k]

\* ---- derived views -----------------------------------------------------------
RECURSIVE Rows(_)
Rows(blocks) == IF blocks = <<>> THEN <<>> ELSE Head(blocks).n \o Rows(Tail(blocks))
RECURSIVE NCellsOf(_)
NCellsOf(blocks) == IF blocks = <<>> THEN 0 ELSE Len(Head(blocks).n) + NCellsOf(Tail(blocks))
NCells(m) == NCellsOf(m.blocks)
\* the slices of an array with one entry per cell
Split(blocks, arr) ==
   LET first == [b \in 1..Len(blocks) |-> NCellsOf(SubSeq(blocks, 1, b - 1))]
   IN [b \in 1..Len(blocks) |-> SubSeq(arr, first[b] + 1, first[b] + Len(blocks[b].n))]
\* cells by type, types in the order in which they come first
RECURSIVE Grouped(_, _)
Grouped(blocks, seen) ==
   IF blocks = <<>> THEN <<>>
   ELSE LET t == Head(blocks).t IN
        IF t \in seen THEN Grouped(Tail(blocks), seen)
        ELSE <<[t |-> t, n |-> Rows(SelectSeq(blocks, LAMBDA b : b.t = t))]>> \o Grouped(Tail(blocks), seen \cup {t})
CellsDict(m) == Grouped(m.blocks, {})
\* centre of a cell times its number of nodes
RECURSIVE SumOver(_, _, _)
SumOver(pts, row, x) == IF row = <<>> THEN 0 ELSE pts[Head(row) + 1][x] + SumOver(pts, Tail(row), x)
Centre(m, row) == [x \in 1..Len(m.pts[1]) |-> SumOver(m.pts, row, x)]
Centres(m) == LET r == TLCEval(Rows(m.blocks)) IN [c \in 1..Len(r) |-> Centre(m, r[c])]

\* ---- materials -----------------------------------------------------------------
DimOf(t) == CASE t = "vertex" -> 0 [] t = "line" -> 1 [] t \in {"triangle", "quad"} -> 2 [] OTHER -> 3
RECURSIVE DimsOf(_)
DimsOf(blocks) == IF blocks = <<>> THEN <<>> ELSE [i \in 1..Len(Head(blocks).n) |-> DimOf(Head(blocks).t)] \o DimsOf(Tail(blocks))
\* names that a cell of a number and a dimension may be given: those of its dimension
\* come first; field data of other shapes (number "x") are no materials
Named(fd) == SelectSeq(fd, LAMBDA f : f.v.id # "x")
Allowed(fd, id, d) ==
   LET own == {"s" \o fd[i].k : i \in {j \in 1..Len(fd) : fd[j].v.id = id /\ fd[j].v.dim = d}}
       any == {"s" \o fd[i].k : i \in {j \in 1..Len(fd) : fd[j].v.id = id}}
   IN IF own # {} THEN own ELSE any
MaterialsOk(m, obs) ==
   LET fd == Named(m.fd) n == NCells(m) dims == TLCEval(DimsOf(m.blocks)) IN
   /\ Len(obs) = n
   /\ IF ~Has(m.cd, "material") THEN \A c \in 1..n : obs[c] = "i1"
      ELSE LET mat == Get(m.cd, "material") IN
           IF fd = <<>> \/ \E c \in 1..n : Allowed(fd, mat[c][1], dims[c]) = {}
           THEN \A c \in 1..n : obs[c] = mat[c][1]
           ELSE \A c \in 1..n : obs[c] \in Allowed(fd, mat[c][1], dims[c])

\* ---- the text that is displayed --------------------------------------------------
RECURSIVE Joined(_)
Joined(s) == IF s = <<>> THEN "" ELSE IF Len(s) = 1 THEN s[1] ELSE s[1] \o ", " \o Joined(Tail(s))
Listed(title, d) == IF d = <<>> THEN <<>> ELSE <<"  " \o title \o ": " \o Joined(KeySeq(d))>>
Display(m) ==
   <<"<toughio mesh object>", "  Number of points: " \o ToString(Len(m.pts))>>
   \o (IF m.blocks = <<>> THEN <<"  No cells.">>
       ELSE <<"  Number of cells:">> \o [b \in 1..Len(m.blocks) |-> "    " \o m.blocks[b].t \o ": " \o ToString(Len(m.blocks[b].n))])
   \o Listed("Point sets", m.ps) \o Listed("Point data", m.pd) \o Listed("Cell data", m.cd)

\* ---- calls ---------------------------------------------------------------------
\* e.op on the mesh in place e.s; what is refused or only looks changes nothing
Apply(e, ms) ==
   LET m == ms[e.s] IN
   CASE e.op = "new" -> [ms EXCEPT ![e.s] = [live |-> "1", pts |-> e.pts, blocks |-> e.blocks, pd |-> e.pd, cd |-> e.cd, ps |-> e.ps, fd |-> e.fd]]
     [] e.op = "copy" -> [ms EXCEPT ![e.to] = m]
     [] e.op = "points" -> [ms EXCEPT ![e.s].pts = e.pts]
     [] e.op = "move" -> [ms EXCEPT ![e.s].pts[e.i][e.x] = e.v]
     [] e.op = "cells" -> [ms EXCEPT ![e.s].blocks = e.blocks, ![e.s].cd = <<>>]
     [] e.op = "recells" -> [ms EXCEPT ![e.s].blocks = e.blocks]      \* the data stay as they are
     [] e.op = "regroup" -> [ms EXCEPT ![e.s].blocks = CellsDict(m), ![e.s].cd = <<>>]
     [] e.op = "add_point" -> [ms EXCEPT ![e.s].pd = Put(@, e.k, e.v)]
     [] e.op = "add_cell" -> [ms EXCEPT ![e.s].cd = Put(@, e.k, e.v)]
     [] e.op = "drop_point" -> [ms EXCEPT ![e.s].pd = Drop(@, e.k)]
     [] e.op = "drop_cell" -> [ms EXCEPT ![e.s].cd = Drop(@, e.k)]
     [] e.op = "point_set" -> [ms EXCEPT ![e.s].ps = Put(@, e.k, e.v)]
     [] e.op = "field" -> [ms EXCEPT ![e.s].fd = Put(@, e.k, e.v)]
     [] OTHER -> ms

\* what an observation of a mesh shows that the content does not have
Differences(m, o) ==
   If(o.np # Len(m.pts), "n_points") \cup If(o.nc # NCells(m), "n_cells")
   \cup If(o.pts # m.pts, "points") \cup If(o.blocks # m.blocks, "cells")
   \cup If(o.pd # m.pd, "point_data") \cup If(o.cd # m.cd, "cell_data") \cup If(o.ps # m.ps, "point_sets") \cup If(o.fd # m.fd, "field_data")
   \cup If(o.dict # CellsDict(m), "cells_dict")
   \cup If(o.split # Split(m.blocks, [c \in 1..NCells(m) |-> c]), "split")
   \cup (IF m.blocks = <<>> THEN {} ELSE If(o.cen # Centres(m), "centers"))
   \cup (IF Has(m.cd, "material") /\ Len(Get(m.cd, "material")) # NCells(m) THEN {} ELSE If(~MaterialsOk(m, o.mats), "materials"))
   \cup If(o.nlab # NCells(m), "labels")
   \cup If(o.text # Display(m), "display")
=============================================================================
