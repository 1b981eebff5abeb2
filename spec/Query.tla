---------------------------------- MODULE Query ----------------------------------
(***************************************************************************)
(* Questions asked of a mesh: which cell is nearest to a point, which      *)
(* cells lie in a box, how orthogonal the connections of a cell are.       *)
(* Centres and points are integers on one scale (120 to the lattice step   *)
(* of the mesh, or 960 when finer); squares are taken in long arithmetic.  *)
(***************************************************************************)
EXTENDS Topo
If(c, k) == IF c THEN {k} ELSE {}
Dist2(p, q) == B!BAdd(B!BAdd(B!BSq(B!BAbs(p[1] - q[1])), B!BSq(B!BAbs(p[2] - q[2]))), B!BSq(B!BAbs(p[3] - q[3])))
\* positions of the closest centres
Nearest(C, p) == LET D == TLCEval([i \in 1..Len(C) |-> Dist2(C[i], p)])
                 IN {i \in 1..Len(C) : \A j \in 1..Len(C) : B!BLe(D[i], D[j])}
\* one side of a box: from lo on, over a length len; "none" when a bound is missing
Side(has0, lo, hasd, len, x) == (has0 => lo <= x) /\ (hasd => x <= lo + len)
OnSide(has0, lo, hasd, len, x) == (has0 /\ x = lo) \/ (hasd /\ x = lo + len)
\* b: [has0, lo, hasd, len], three of each; a length needs its lower bound
InBox(b, x) == \A k \in 1..3 : Side(b.has0[k], b.lo[k], b.hasd[k], b.len[k], x[k])
OnBox(b, x) == \E k \in 1..3 : OnSide(b.has0[k], b.lo[k], b.hasd[k], b.len[k], x[k])
Box(b, C) == {i \in 1..Len(C) : InBox(b, C[i])}

\* ---- quality --------------------------------------------------------------
\* square of the cosine between line d and the normal of a facet of area vector a: num / den
Cos2(d, a) == LET p == Dot(d, a)
              IN [num |-> B!BSq(B!BAbs(p)), den |-> B!BMul(B!BNat(Dot(d, d)), B!BNat(Dot(a, a)))]
Less(x, y) == B!BCmp(B!BMul(x.num, y.den), B!BMul(y.num, x.den)) < 0
\* the cosines of the connections of cell i; fs: facets of all cells
RingOf(c, F) == LET r == Rings(c) IN r[CHOOSE f \in 1..Len(r) : SetOf(r[f]) = F]
Reduce(v) == LET a == MaxOf(Abs(v[1]), MaxOf(Abs(v[2]), Abs(v[3])))
                 RECURSIVE G(_, _) G(x, y) == IF y = 0 THEN x ELSE G(y, x % y)
                 g == G(G(Abs(v[1]), Abs(v[2])), Abs(v[3]))
             IN IF g = 0 THEN v ELSE [k \in 1..3 |-> v[k] \div g]
Cosines(M, C, fs, i) == {Cos2(Reduce(Sub3(C[j], C[i])), Reduce(AreaVec(M, RingOf(M.cells[i], F)))) :
                         <<j, F>> \in {<<j2, F2>> \in (1..Len(fs)) \X fs[i] : j2 # i /\ F2 \in fs[j2]}}
Least(S) == CHOOSE x \in S : \A y \in S : ~Less(y, x)
=============================================================================
