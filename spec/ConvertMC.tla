------------------------------- MODULE ConvertMC -------------------------------
(* Small cases of both commands: every order of the elements of a MESH file     *)
(* against the rows of a listing, and every small grid of points.               *)
EXTENDS Convert, Json
CONSTANTS N, NSteps, Mode, Len1, Emit
VARIABLES x
Labels == <<"AAA00", "AAA01", "AAA02", "AAA03">>
Places == <<<<"f5E-1", "f-15E-1", "f0E0">>, <<"f25E-1", "f-15E-1", "f0E0">>, <<"f5E-1", "f7E0", "f-1E2">>, <<"f5E-1", "f7E0", "f-2E2">>>>
Perms(n) == {p \in [1..n -> 1..n] : \A i, j \in 1..n : i # j => p[i] # p[j]}
NumTen(v) == LET t == RenderE(v, 2) IN PadL(t, 10)
EleLine(i) == PadR(Labels[i], 15) \o "dfalt" \o Rep(" ", 30) \o NumTen(Places[i][1]) \o NumTen(Places[i][2]) \o NumTen(Places[i][3])
MeshText(p) == <<"ELEME----1">> \o [i \in 1..Len(p) |-> EleLine(p[i])] \o <<"", "CONNE", "", "">>
Vals == <<"f1E5", "f-25E-1", "f-7E10", "f0E0", "f3E-10">>
Tab(n, q, ty) == [ty |-> ty, steps |-> [i \in 1..n |-> [t |-> <<"f1E4", "f864E2", "f3E6">>[i], names |-> <<"P", "T">>,
                   labels |-> [r \in 1..Len(q) |-> IF ty = "element" THEN Labels[q[r]] ELSE <<Labels[q[r]], Labels[q[(r % Len(q)) + 1]]>>],
                   rows |-> [r \in 1..Len(q) |-> <<Vals[((i * 2 + r) % 5) + 1], Vals[((i + 3 * r) % 5) + 1]>>]]]]
Lay == [start |-> "blank", ind |-> 1, page |-> 0, units |-> 1, iw |-> 6, d |-> 5, gap |-> 1, more |-> 0]
\* grids of points along each axis: origin, steps (in thousandths)
Grids == {<<o, s>> : o \in {-1000, 0}, s \in UNION {[1..k -> {1000, 3000}] : k \in 1..Len1}}
RECURSIVE Mids(_, _)
Mids(o, s) == IF s = <<>> THEN <<>> ELSE <<o + s[1] \div 2>> \o Mids(o + s[1], Tail(s))
Points(g) == LET a == [d \in 1..3 |-> Mids(g[d][1], g[d][2])] nx == Len(a[1]) ny == Len(a[2]) nz == Len(a[3])
             IN [k \in 1..(nx * ny * nz) |-> <<a[1][((k - 1) % nx) + 1], a[2][(((k - 1) \div nx) % ny) + 1], a[3][((k - 1) \div (nx * ny)) + 1]>>]
GridStep(g) == LET p == Points(g) IN [t |-> "f1E0", labels |-> [k \in 1..Len(p) |-> ToString(k)], names |-> <<"P">> \o XYZ,
                                      rows |-> [k \in 1..Len(p) |-> <<Canon(k * 1000)>> \o [d \in 1..3 |-> Canon(p[k][d])]]]
Init == \/ /\ Mode = "extract"
           /\ \E n \in 1..NSteps, p \in Perms(N), q \in {q \in Perms(N) : Emit = 0 \/ q[1] = 1} \cup {[i \in 1..(N - 1) |-> i]}, sp, cn \in {"0", "1"}, f \in {"csv", "tecplot", "petrasim"} :
                /\ (cn = "1" => f = "csv")
                /\ x = [mesh |-> MeshText(p), tab |-> Tab(n, q, IF cn = "1" THEN "connection" ELSE "element"), el |-> Tab(n, q, "element"),
                        o |-> [fmt |-> f, split |-> sp, conn |-> cn, out |-> ""]]
        \/ /\ Mode = "voxel"
           /\ \E g \in [1..3 -> Grids] : x = [s |-> GridStep(g), g |-> g]
Next == UNCHANGED x
Spec == Init /\ [][Next]_x
RECURSIVE Total(_)
Total(s) == IF s = <<>> THEN 0 ELSE s[1] + Total(Tail(s))
\* every row has the place of its own element, in every file
Placed == Mode = "extract" =>
   LET C == Centres(x.mesh, 5) f == Extracted(WithXYZ(C, x.tab), x.o) IN
   /\ C = [l \in {Labels[i] : i \in 1..N} |-> Places[CHOOSE i \in 1..N : Labels[i] = l]]
   /\ Covers(C, x.tab)
   /\ Cardinality(DOMAIN f) = IF x.o.split = "1" THEN Len(x.tab.steps) ELSE 1
   /\ \A n \in DOMAIN f : \A i \in 1..Len(f[n].steps) : LET s == f[n].steps[i] IN
         /\ s.names = <<"P", "T", "X", "Y", "Z">>
         /\ \A r \in 1..Len(s.rows) : x.tab.ty = "element" => SubSeq(s.rows[r], 3, 5) = Places[CHOOSE k \in 1..N : Labels[k] = s.labels[r]]
         /\ \E k \in 1..Len(x.tab.steps) : x.tab.steps[k].t = s.t /\ \A r \in 1..Len(s.rows) : SubSeq(s.rows[r], 1, 2) = x.tab.steps[k].rows[r]
\* the voxels have the points at their middles, touch, and fill the box (axes that vary)
Filled == Mode = "voxel" =>
   LET s == x.s g == x.g org == [d \in 1..3 |-> g[d][1]] v == Voxels(s, org) ax == SetOf(Axes(s)) IN
   /\ Gridded(s) /\ OriginOK(s, org)
   /\ \A r \in 1..Len(v) : \A d \in ax : v[r][d][1] + v[r][d][2] = 2 * K(Coord(s, d)[r]) /\ v[r][d][1] < v[r][d][2]
   /\ \A d \in 1..3 : d \in ax => {v[r][d][1] : r \in 1..Len(v)} \cup {v[r][d][2] : r \in 1..Len(v)} = {org[d] + Total(SubSeq(g[d][2], 1, k)) : k \in 0..Len(g[d][2])}
   /\ \A i, j \in 1..Len(v) : i # j => v[i] # v[j]
Numbers == \A n \in {-100500, -1, 0, 7, 250, 1000, 999750} : K(Canon(n)) = n
Emitted == Emit = 1 => IF Mode = "extract" THEN PrintT("@EX " \o ToJson([mesh |-> x.mesh, o |-> x.o, ids |-> x.el.steps[1].labels,
                                lines |-> WriteListing(x.el.steps, IF x.tab.ty = "connection" THEN x.tab.steps ELSE <<>>, Lay)]))
                       ELSE PrintT("@VX " \o ToJson([lines |-> WriteCsv([ty |-> "element", steps |-> <<x.s>>], [q |-> 1, w |-> 14, c |-> "E"]), org |-> [d \in 1..3 |-> x.g[d][1]]]))
=============================================================================
