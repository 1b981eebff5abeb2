-------------------------------- MODULE Topo --------------------------------
(***************************************************************************)
(* Unstructured meshes of tetrahedra, pyramids, wedges and hexahedra.      *)
(* A mesh is [pts, cells]: points are integer lattice coordinates (the     *)
(* real coordinates are these times a power of ten), cells are [t, n] with *)
(* 0-based node numbers.  Everything here is exact: areas and lengths are  *)
(* compared through their squares in long arithmetic.                      *)
(***************************************************************************)
EXTENDS Text
B == INSTANCE Big WITH Base <- 10000

\* local faces (0-based nodes), every face outward for a positively oriented cell
FaceTable == [
   tetra |-> <<<<1,2,3>>, <<0,3,2>>, <<0,1,3>>, <<0,2,1>>>>,
   pyramid |-> <<<<0,1,4>>, <<1,2,4>>, <<2,3,4>>, <<3,0,4>>, <<0,3,2,1>>>>,
   wedge |-> <<<<0,2,1>>, <<3,4,5>>, <<0,1,4,3>>, <<1,2,5,4>>, <<0,3,5,2>>>>,
   hexahedron |-> <<<<0,3,2,1>>, <<4,5,6,7>>, <<0,1,5,4>>, <<1,2,6,5>>, <<2,3,7,6>>, <<0,4,7,3>>>>]
NFaces(t) == Len(FaceTable[t])

\* the faces of a cell, as rings of node numbers
Rings(c) == [f \in 1..NFaces(c.t) |-> [k \in 1..Len(FaceTable[c.t][f]) |-> c.n[FaceTable[c.t][f][k] + 1]]]
SetOf(s) == {s[i] : i \in 1..Len(s)}
Facets(c) == LET r == Rings(c) IN {SetOf(r[f]) : f \in 1..Len(r)}

\* same ring up to the starting node and the sense
SameRing(a, b) ==
   /\ Len(a) = Len(b)
   /\ \E s \in 0..(Len(a) - 1) :
        \/ \A k \in 1..Len(a) : a[k] = b[((k - 1 + s) % Len(a)) + 1]
        \/ \A k \in 1..Len(a) : a[k] = b[((s - k + 2 * Len(a)) % Len(a)) + 1]

\* all facets of all cells: fs[i] = set of facets of cell i
AllFacets(M) == [i \in 1..Len(M.cells) |-> Facets(M.cells[i])]
\* cells (1-based) on the other side of facet F of cell i
Across(fs, i, F) == {j \in 1..Len(fs) : j # i /\ F \in fs[j]}
\* unordered pairs of connected cells, each with the facet between them
Links(fs) == {<<i, j, F>> \in UNION {{<<i, j, F>> : F \in fs[i] \cap fs[j]} : i, j \in 1..Len(fs)} : i < j}

\* ---- geometry ------------------------------------------------------------
P(M, v) == M.pts[v + 1]
Sub3(a, b) == <<a[1] - b[1], a[2] - b[2], a[3] - b[3]>>
Cross(a, b) == <<a[2] * b[3] - a[3] * b[2], a[3] * b[1] - a[1] * b[3], a[1] * b[2] - a[2] * b[1]>>
Dot(a, b) == a[1] * b[1] + a[2] * b[2] + a[3] * b[3]
Abs(x) == IF x < 0 THEN -x ELSE x
RECURSIVE SumTo(_, _)
SumTo(f, n) == IF n = 0 THEN 0 ELSE f[n] + SumTo(f, n - 1)

\* twice the area vector of a planar ring
AreaVec(M, r) ==
   IF Len(r) = 3 THEN Cross(Sub3(P(M, r[2]), P(M, r[1])), Sub3(P(M, r[3]), P(M, r[1])))
   ELSE Cross(Sub3(P(M, r[3]), P(M, r[1])), Sub3(P(M, r[4]), P(M, r[2])))
\* six times the volume, by the cones from the first node over the outward faces
Vol6(M, c) ==
   LET o == P(M, c.n[1])
       r == Rings(c)
       cone(f) == LET q == r[f]
                      d(k) == Sub3(P(M, q[k]), o)
                      tri(a, b2, e) == Dot(d(a), Cross(d(b2), d(e)))
                  IN tri(1, 2, 3) + (IF Len(q) = 4 THEN tri(1, 3, 4) ELSE 0)
   IN Abs(SumTo([f \in 1..Len(r) |-> cone(f)], Len(r)))
\* all faces planar (and so volume and areas are those of any triangulation)
Planar(M, c) == \A f \in 1..NFaces(c.t) : LET q == Rings(c)[f] IN
   Len(q) = 3 \/ Dot(Sub3(P(M, q[4]), P(M, q[1])), Cross(Sub3(P(M, q[2]), P(M, q[1])), Sub3(P(M, q[3]), P(M, q[1])))) = 0

\* centre of a cell times its number of nodes
CSum(M, c) == [k \in 1..3 |-> SumTo([i \in 1..Len(c.n) |-> P(M, c.n[i])[k]], Len(c.n))]
\* centres times 120 = lcm(4, 5, 6, 8), relative to point o
C120(M, c, o) == LET n == Len(c.n) s == CSum(M, c) IN [k \in 1..3 |-> (s[k] - n * o[k]) * (120 \div n)]

\* ---- measured numbers ------------------------------------------------------
\* x, an integer meaning x / 10^s, is sqrt(num / den) within ppm (10^-6) and rounding
IsSqrt(x, s, num, den, ppm) ==
   LET X == B!BMul(B!BSq(B!BAbs(x)), den)
       Y == B!BMul(num, B!BPow10(2 * s))
   IN x >= 0 /\ B!BClose(X, Y, 2 * ppm, B!BMul(den, B!BNat(4 * x + 4)))
\* a canonical float f is sg * sqrt(num / den) * 10^k within ppm
FDigits(v) == B!BText(FDigs(v))
FIsSqrt(v, num, den, k, ppm) ==
   IF v = "f0E0" THEN num = <<>>
   ELSE LET e == 2 * (FExp(v) - k)
            X == B!BMul(B!BSq(FDigits(v)), den)
        IN IF e >= 0 THEN B!BClose(B!BMul(X, B!BPow10(e)), num, 2 * ppm, <<>>)
           ELSE B!BClose(X, B!BMul(num, B!BPow10(-e)), 2 * ppm, <<>>)
\* a canonical float is num / den * 10^k within ppm (num an integer)
FIsRatio(v, num, den, k, ppm) ==
   IF v = "f0E0" THEN num = 0
   ELSE /\ (FSign(v) = "-") = (num < 0)
        /\ LET e == FExp(v) - k
               X == B!BMul(FDigits(v), B!BNat(den))
           IN IF e >= 0 THEN B!BClose(B!BMul(X, B!BPow10(e)), B!BAbs(num), ppm, <<>>)
              ELSE B!BClose(X, B!BMul(B!BAbs(num), B!BPow10(-e)), ppm, <<>>)
=============================================================================
