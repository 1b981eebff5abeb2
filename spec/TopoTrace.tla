------------------------------ MODULE TopoTrace ------------------------------
(* Observed topology and geometry of meshes, judged against Topo.          *)
EXTENDS Topo, Json, IOUtils
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLE l
If(c, k) == IF c THEN {k} ELSE {}

\* rings observed for one cell, without the -1 padding
NodesOf(row) == {k \in 1..Len(row) : row[k] # -1}
Padded(row) == \E n \in {0, 3, 4} : NodesOf(row) = 1..n
RingsSeen(o) == [f \in {g \in 1..Len(o) : NodesOf(o[g]) # {}} |-> SubSeq(o[f], 1, Cardinality(NodesOf(o[f])))]

FacesOK(c, o) ==
   LET want == Rings(c) got == RingsSeen(o) IN
   /\ \A f \in 1..Len(o) : Padded(o[f])
   /\ DOMAIN got = 1..Len(want)
   /\ \A f \in 1..Len(want) : \E g \in DOMAIN got : SameRing(want[f], got[g])
   /\ \A g \in DOMAIN got : \E f \in 1..Len(want) : SameRing(want[f], got[g])

ConnOK(fs, i, o, row) ==
   LET got == RingsSeen(o) IN
   /\ \A g \in DOMAIN got : LET a == Across(fs, i, SetOf(got[g])) IN
        IF a = {} THEN row[g] = -1 ELSE (row[g] + 1) \in a
   /\ \A g \in 1..Len(row) : g \notin DOMAIN got => row[g] = -1
SymOK(conn) == \A i \in 1..Len(conn) : \A f \in 1..Len(conn[i]) :
   conn[i][f] = -1 \/ \E g \in 1..Len(conn[i]) : conn[conn[i][f] + 1][g] = i - 1

\* n: three integers, 10^4 times the unit normal
NormalOK(A, n) ==
   LET c == Cross(n, A)
       m == MaxOf(Abs(A[1]), MaxOf(Abs(A[2]), Abs(A[3])))
   IN /\ \A k \in 1..3 : Abs(c[k]) <= 12 * m
      /\ Abs(Dot(n, n) - 100000000) <= 100000

Topo_(e) ==
   IF e.err # "" THEN {"raised"}
   ELSE LET M == [pts |-> e.pts, cells |-> e.cells]
            n == Len(e.cells)
            fs == AllFacets(M)
            av(i, g) == AreaVec(M, RingsSeen(e.faces[i])[g])
        IN
        IF Len(e.faces) # n \/ Len(e.conn) # n \/ Len(e.normals) # n \/ Len(e.areas) # n \/ Len(e.vols) # n
        THEN {"one_row_per_cell"}
        ELSE IF ~(\A i \in 1..n : FacesOK(e.cells[i], e.faces[i])) THEN {"faces"}
        ELSE If(~(\A i \in 1..n : ConnOK(fs, i, e.faces[i], e.conn[i])), "connections")
             \cup If(~SymOK(e.conn), "connections_not_symmetric")
             \cup If(~(\A i \in 1..n : Len(e.normals[i]) = NFaces(e.cells[i].t)
                        /\ \A g \in 1..Len(e.normals[i]) : NormalOK(av(i, g), e.normals[i][g])), "face_normals")
             \cup If(~(\A i \in 1..n : Len(e.areas[i]) = NFaces(e.cells[i].t)
                        /\ \A g \in 1..Len(e.areas[i]) : LET a == av(i, g) IN
                             IsSqrt(e.areas[i][g], 4, B!BNat(Dot(a, a)), B!BNat(4), 20)), "face_areas")
             \cup If(~(\A i \in 1..n : IF e.vols[i] < 0 THEN FALSE ELSE
                          B!BClose(B!BMul(B!BNat(e.vols[i]), B!BNat(6)), B!BMul(B!BNat(Vol6(M, e.cells[i])), B!BPow10(4)),
                                20, B!BNat(12))), "volumes")

Clauses(e) == CASE e.ev = "topo" -> Topo_(e)
                [] OTHER -> {"unknown_event"}
\* the generator keeps to planar faces
Sane(e) == IF e.ev = "topo" THEN \A i \in 1..Len(e.cells) : Planar([pts |-> e.pts, cells |-> e.cells], e.cells[i]) /\ Vol6([pts |-> e.pts, cells |-> e.cells], e.cells[i]) > 0 ELSE TRUE
Init == l = 1
Next == /\ l <= Len(Trace)
        /\ LET c == Clauses(Trace[l]) IN
           IF c = {} THEN TRUE ELSE PrintT("@FAIL " \o ToJson([l |-> l, clauses |-> c]))
        /\ Assert(Sane(Trace[l]), "generator outside its domain")
        /\ l' = l + 1
TraceSpec == Init /\ [][Next]_l
TraceComplete == PrintT("@DONE " \o ToJson([n |-> TLCGet("stats").diameter - 1]))
=============================================================================
