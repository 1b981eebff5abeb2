------------------------------ MODULE GridTrace ------------------------------
(* Grids made by the library against Grid; rings of cylindric grids.       *)
(* Measured coordinates are integers, 10^4 times the lattice unit.         *)
EXTENDS Grid, Json, IOUtils, TLC
T == INSTANCE Topo
B == INSTANCE Big WITH Base <- 10000
D == INSTANCE Deck
Lab == INSTANCE Labels WITH NAlpha <- 26, NNomen <- 35, NNum <- 10
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLE l
If(c, k) == IF c THEN {k} ELSE {}
Abs(x) == IF x < 0 THEN -x ELSE x
\* a measured coordinate as a lattice integer (or a mark)
Snap(q) == LET r == (q + (IF q >= 0 THEN 5000 ELSE -5000)) IN
           LET v == IF r >= 0 THEN r \div 10000 ELSE -((-r) \div 10000) IN IF Abs(q - 10000 * v) <= 2 THEN v ELSE 100000000
SnapP(p, n) == [d \in 1..n |-> Snap(p[d])]

\* the material that was asked for, in every cell
Named(e) == If(\E c \in 1..Len(e.mats) : e.mats[c] # e.mat, "material") \cup If(Len(e.mats) # Len(e.cells), "material_of_every_cell")

GridOK(e, inc, org) ==
   LET n == Count(inc)
       dim == Len(inc)
       layer == e.layer = "1"
       pts == [i \in 1..Len(e.pts) |-> SnapP(e.pts[i], dim)]
       flat == dim = 3 \/ \A i \in 1..Len(e.pts) : Len(e.pts[i]) = 3 /\ Abs(e.pts[i][3]) <= 1
       ptset == {pts[i] : i \in 1..Len(pts)}
       corner(c) == {pts[e.cells[c].n[k] + 1] : k \in 1..Len(e.cells[c].n)}
       M == [pts |-> pts, cells |-> e.cells]
       fs == T!AllFacets(M)
   IN If(Len(e.cells) # n, "number_of_cells")
      \cup If(~flat, "plane") \cup If(ptset # Nodes(inc, org) \/ Cardinality(ptset) # Len(pts), "points")
      \cup If(\E c \in 1..Len(e.cells) : e.cells[c].t # (IF dim = 3 THEN "hexahedron" ELSE "quad"), "cell_type")
      \cup (IF Len(e.cells) # n \/ ptset # Nodes(inc, org) THEN {} ELSE
            If(~(\A c \in 1..n : corner(c) = Corners(inc, org, Box(inc, layer, c - 1))), "cell_boxes")
            \cup (IF dim = 3 THEN
                 If(~(\A c \in 1..n : T!Planar(M, e.cells[c]) /\
                       T!Vol6(M, e.cells[c]) = 6 * LET b == Box(inc, layer, c - 1) IN inc[1][b[1]+1] * inc[2][b[2]+1] * inc[3][b[3]+1]), "cell_shape")
                 \cup If({<<x[1], x[2]>> : x \in T!Links(fs)} #
                         {x \in (1..n) \X (1..n) : x[1] < x[2] /\ Adjacent(Box(inc, layer, x[1] - 1), Box(inc, layer, x[2] - 1))}, "neighbours")
                 ELSE If(~(\A c \in 1..n : LET q == [k \in 1..4 |-> pts[e.cells[c].n[k] + 1]] IN
                        \* a ring: opposite corners differ in both coordinates
                        \A d \in 1..2 : q[1][d] # q[3][d] /\ q[2][d] # q[4][d]), "cell_shape")))
      \cup If(e.conn # <<>> /\ ~(
            /\ Len(e.conn) = n
            /\ \A c \in 1..n : {x \in {e.conn[c][f] + 1 : f \in 1..Len(e.conn[c])} : x # 0} =
                 {x \in 1..n : Adjacent(Box(inc, layer, c - 1), Box(inc, layer, x - 1))}), "connections")
      \cup Named(e)
Structured(e) == IF e.err # "" THEN {"raised"} ELSE GridOK(e, e.inc, e.org)

\* voxelize: the boxes have the given points as centres
Voxel(e) ==
   IF e.err # "" THEN {"raised"}
   ELSE LET c == [d \in 1..3 |-> Sort({e.given[i][d] : i \in 1..Len(e.given)})]
            inc == [d \in 1..3 |-> Increments(c[d], e.org[d], e.unit)]
        IN GridOK(e, inc, e.org)

\* x / 10^4 is num * 355 / 113 (pi: 1) or num (pi: 0), num in halves
Near(x, num2, pi) ==
   LET X == B!BMul(B!BAbs(x), B!BNat(IF pi THEN 226 ELSE 2))
       Y == B!BMul(B!BAbs(num2), B!BNat(IF pi THEN 3550000 ELSE 10000))
   IN x >= 0 /\ B!BClose(X, Y, 5, B!BNat(IF pi THEN 452 ELSE 4))
Cyl(e) ==
   IF e.err # "" THEN {"raised"}
   ELSE LET inc == <<e.dr, <<1>>, e.dz>>
            layer == e.layer = "1"
            n == Count(inc)
            b(c) == Box(inc, layer, c - 1)
            r1(c) == Prefix(e.dr, b(c)[1])
            r2(c) == Prefix(e.dr, b(c)[1] + 1)
            h(c) == e.dz[b(c)[3] + 1]
            ring(c) == 2 * (r2(c) * r2(c) - r1(c) * r1(c))
            zlo(c) == e.oz + Prefix(e.dz, b(c)[3])
            zhi(c) == e.oz + Prefix(e.dz, b(c)[3] + 1)
            pt(c, f, k) == e.pts[e.faces[c][f][k] + 1]
            side(c, f) == \* which face of the box: by its points
               IF \A k \in 1..4 : Snap(pt(c, f, k)[3]) = zlo(c) THEN "bottom"
               ELSE IF \A k \in 1..4 : Snap(pt(c, f, k)[3]) = zhi(c) THEN "top"
               ELSE IF \A k \in 1..4 : Snap(pt(c, f, k)[1]) = r1(c) THEN "inner"
               ELSE IF \A k \in 1..4 : Snap(pt(c, f, k)[1]) = r2(c) THEN "outer" ELSE "radial"
            areaOK(c, f) == CASE side(c, f) \in {"bottom", "top"} -> Near(e.areas[c][f], ring(c), TRUE)
                              [] side(c, f) = "inner" -> Near(e.areas[c][f], 4 * r1(c) * h(c), TRUE)
                              [] side(c, f) = "outer" -> Near(e.areas[c][f], 4 * r2(c) * h(c), TRUE)
                              [] OTHER -> Near(e.areas[c][f], 2 * (r2(c) - r1(c)) * h(c), FALSE)
        IN If(Len(e.cells) # n, "number_of_cells") \cup Named(e)
           \cup (IF Len(e.cells) # n THEN {} ELSE
             If(~(\A c \in 1..n : {<<Snap(p[1]), Snap(p[3])>> : p \in {e.pts[e.cells[c].n[k] + 1] : k \in 1..8}} =
                     {<<x, z>> : x \in {r1(c), r2(c)}, z \in {zlo(c), zhi(c)}}), "cell_boxes")
             \cup If(~(\A c \in 1..n : Near(e.vols[c], ring(c) * h(c), TRUE)), "ring_volumes")
             \cup If(~(\A c \in 1..n : \A f \in 1..6 : areaOK(c, f)), "ring_areas")
             \cup If(~(\A c \in 1..n : Cardinality({side(c, f) : f \in 1..6}) = 5), "ring_faces"))

\* MESH file of a cylindric grid
CylMesh(e) ==
   IF e.err # "" THEN {"raised"}
   ELSE LET inc == <<e.dr, <<1>>, e.dz>>
            layer == e.layer = "1"
            n == Count(inc)
            b(c) == Box(inc, layer, c - 1)
            r1(c) == Prefix(e.dr, b(c)[1])
            r2(c) == Prefix(e.dr, b(c)[1] + 1)
            h(c) == e.dz[b(c)[3] + 1]
            lab(c) == Lab!Label(5, c - 1)
            R == D!Parse(e.lines, 5)
            el(c) == R.d.elements[lab(c)]
            ratio(v, num, den, k, ppm) == IF num = 0 THEN v = "f0E0" ELSE T!FIsRatio(v, num, den, k, ppm)
            key(i, j) == IF lab(i) \o lab(j) \in DOMAIN R.d.conns THEN lab(i) \o lab(j) ELSE lab(j) \o lab(i)
            pairs == {x \in (1..n) \X (1..n) : x[1] < x[2] /\ Adjacent(b(x[1]), b(x[2]))}
            conOK(i, j) ==      \* key(i, j) starts with i's label or j's
               LET k == key(i, j) IN k \in DOMAIN R.d.conns /\
               LET c == R.d.conns[k]
                   a == IF k = lab(i) \o lab(j) THEN i ELSE j
                   z == IF a = i THEN j ELSE i
                   vert == b(a)[1] = b(z)[1]
                   half(x) == IF vert THEN h(x) ELSE r2(x) - r1(x)
                   rr == IF r1(a) > r1(z) THEN r1(a) ELSE r1(z)
               IN /\ ratio(c.dist[1], half(a), 2, e.k, 60) /\ ratio(c.dist[2], half(z), 2, e.k, 60)
                  /\ D!Get(c.s, "permeability_direction", "") = (IF vert THEN "i3" ELSE "i1")
                  /\ (IF vert THEN ratio(c.s["interface_area"], (r2(a) * r2(a) - r1(a) * r1(a)) * 355, 113, 2 * e.k, 60)
                      ELSE ratio(c.s["interface_area"], 2 * rr * h(a) * 355, 113, 2 * e.k, 60))
                  /\ c.s["gravity_cosine_angle"] = (IF ~vert THEN "f0E0" ELSE IF b(a)[3] > b(z)[3] THEN "f1E0" ELSE "f-1E0")
        IN R.bad \cup If(R.d.eorder # [c \in 1..n |-> lab(c)], "eleme_labels")
           \cup (IF R.d.eorder # [c \in 1..n |-> lab(c)] THEN {} ELSE
              If(~(\A c \in 1..n : /\ ratio(el(c).s["volume"], (r2(c) * r2(c) - r1(c) * r1(c)) * h(c) * 355, 113, 3 * e.k, 60)
                                  /\ ratio(el(c).center[1], r1(c) + r2(c), 2, e.k, 600)
                                  /\ D!Get(el(c), "center", <<>>)[2] = "f0E0"
                                  /\ ratio(el(c).center[3], 2 * e.oz + Prefix(e.dz, b(c)[3]) + Prefix(e.dz, b(c)[3] + 1), 2, e.k, 600)), "eleme_rings")
              \cup If(Cardinality(DOMAIN R.d.conns) # Cardinality(pairs), "conne_count")
              \cup If(~(\A x \in pairs : conOK(x[1], x[2])), "conne_rings"))

\* triangulations: simplices that fill the hull (2 or 6 times its measure is given)
Tri(e) ==
   IF e.err # "" THEN {"raised"}
   ELSE LET pts == [i \in 1..Len(e.pts) |-> [d \in 1..3 |-> Snap(e.pts[i][d])]]
            M == [pts |-> pts, cells |-> e.cells]
            area2(c) == LET a == pts[c.n[1] + 1] u == T!Sub3(pts[c.n[2] + 1], a) v == T!Sub3(pts[c.n[3] + 1], a)
                        IN Abs(u[1] * v[2] - u[2] * v[1])
            meas(c) == IF Len(c.n) = 3 THEN area2(c) ELSE T!Vol6(M, c)
        IN If(pts # e.given, "points") \cup Named(e) \cup If({e.cells[c].n[k] : c \in 1..Len(e.cells), k \in 1..Len(e.cells[1].n)} # 0..(Len(pts) - 1), "every_point_used")
           \cup If(T!SumTo([c \in 1..Len(e.cells) |-> meas(e.cells[c])], Len(e.cells)) # e.hull, "fills_hull")

\* extrusion: measure times height (volumes are 6 V, areas 2 A, in lattice units)
Ext(e) ==
   IF e.err # "" THEN {"raised"}
   ELSE LET pts == [i \in 1..Len(e.pts) |-> [d \in 1..3 |-> Snap(e.pts[i][d])]]
            M == [pts |-> pts, cells |-> e.cells]
            n == Len(e.areas2)
            nh == Len(e.heights)
        IN If(Len(e.cells) # n * nh, "number_of_cells")
           \cup (IF Len(e.cells) # n * nh THEN {} ELSE
              If(T!SumTo([c \in 1..Len(e.cells) |-> T!Vol6(M, e.cells[c])], n * nh) #
                 3 * T!SumTo(e.areas2, n) * T!SumTo([i \in 1..nh |-> Abs(e.heights[i])], nh), "volume_kept")
              \cup If(~(\A c \in 1..Len(e.cells) : T!Planar(M, e.cells[c]) /\ T!Vol6(M, e.cells[c]) > 0), "cell_shape"))
Reject(e) == If(~(D!StartsWith(e.err, "ValueError") \/ D!StartsWith(e.err, "TypeError")), "not_rejected")

Clauses(e) == CASE e.ev = "grid" -> Structured(e) [] e.ev = "voxel" -> Voxel(e) [] e.ev = "cyl" -> Cyl(e)
                [] e.ev = "cylmesh" -> CylMesh(e) [] e.ev = "tri" -> Tri(e) [] e.ev = "ext" -> Ext(e)
                [] e.ev = "reject" -> Reject(e) [] OTHER -> {"unknown_event"}
Init == l = 1
Next == /\ l <= Len(Trace)
        /\ LET c == Clauses(Trace[l]) IN
           IF c = {} THEN TRUE ELSE PrintT("@FAIL " \o ToJson([l |-> l, clauses |-> c]))
        /\ l' = l + 1
TraceSpec == Init /\ [][Next]_l
TraceComplete == PrintT("@DONE " \o ToJson([n |-> TLCGet("stats").diameter - 1]))
=============================================================================
