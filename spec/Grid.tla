-------------------------------- MODULE Grid --------------------------------
(***************************************************************************)
(* Product grids.  inc = <<dx, dy, dz>> (or <<dx, dy>>) are sequences of   *)
(* positive integers, org the integer origin; real lengths are these times *)
(* a power of ten.  Cell number p (0-based) of a grid is box <<i, j, k>>.  *)
(*   layer order:  layers from top to bottom, in a layer rows along X      *)
(*   column order: columns in (X, Y) order, each from top to bottom        *)
(* (2D grids: rows along X when layered, columns along Y otherwise.)       *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets
RECURSIVE Prefix(_, _)
Prefix(s, n) == IF n = 0 THEN 0 ELSE s[n] + Prefix(s, n - 1)
Count(inc) == IF Len(inc) = 2 THEN Len(inc[1]) * Len(inc[2]) ELSE Len(inc[1]) * Len(inc[2]) * Len(inc[3])
Box(inc, layer, p) ==
   LET nx == Len(inc[1]) ny == Len(inc[2]) IN
   IF Len(inc) = 2 THEN IF layer THEN <<p % nx, p \div nx>> ELSE <<p \div ny, p % ny>>
   ELSE LET nz == Len(inc[3]) IN
        IF layer THEN <<p % nx, (p \div nx) % ny, nz - 1 - (p \div (nx * ny))>>
        ELSE <<p \div (ny * nz), (p \div nz) % ny, nz - 1 - (p % nz)>>
Lo(inc, org, b) == [d \in 1..Len(inc) |-> org[d] + Prefix(inc[d], b[d])]
Hi(inc, org, b) == [d \in 1..Len(inc) |-> org[d] + Prefix(inc[d], b[d] + 1)]
Boxes(inc) == IF Len(inc) = 2 THEN {<<i, j>> : i \in 0..(Len(inc[1]) - 1), j \in 0..(Len(inc[2]) - 1)}
              ELSE {<<i, j, k>> : i \in 0..(Len(inc[1]) - 1), j \in 0..(Len(inc[2]) - 1), k \in 0..(Len(inc[3]) - 1)}
\* boxes sharing a face
Adjacent(a, b) == \E d \in 1..Len(a) : /\ (a[d] = b[d] + 1 \/ b[d] = a[d] + 1)
                                       /\ \A e \in 1..Len(a) : e # d => a[e] = b[e]
\* all grid nodes
Edges(inc, org, d) == {org[d] + Prefix(inc[d], n) : n \in 0..Len(inc[d])}
Nodes(inc, org) == IF Len(inc) = 2 THEN {<<x, y>> : x \in Edges(inc, org, 1), y \in Edges(inc, org, 2)}
                   ELSE {<<x, y, z>> : x \in Edges(inc, org, 1), y \in Edges(inc, org, 2), z \in Edges(inc, org, 3)}
\* corners of box b
Corners(inc, org, b) == LET l == Lo(inc, org, b) h == Hi(inc, org, b) IN
   IF Len(inc) = 2 THEN {<<x, y>> : x \in {l[1], h[1]}, y \in {l[2], h[2]}}
   ELSE {<<x, y, z>> : x \in {l[1], h[1]}, y \in {l[2], h[2]}, z \in {l[3], h[3]}}
RECURSIVE Sort(_)
Sort(S) == IF S = {} THEN <<>> ELSE LET m == CHOOSE x \in S : \A y \in S : x <= y IN <<m>> \o Sort(S \ {m})
\* increments of the 1D Voronoi cells of sorted nodes c, first edge at o (one node: a unit cell)
RECURSIVE VorEdges(_, _, _)
VorEdges(c, e, unit) == IF c = <<>> THEN <<e>> ELSE <<e>> \o VorEdges(Tail(c), 2 * c[1] - e, unit)
Increments(c, o, unit) == IF Len(c) = 1 THEN <<unit>>
   ELSE LET e == VorEdges(c, o, unit) IN [i \in 1..Len(c) |-> e[i + 1] - e[i]]
=============================================================================
