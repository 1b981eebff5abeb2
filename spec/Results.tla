--------------------------------- MODULE Results ---------------------------------
(***************************************************************************)
(* Simulation results and the mesh they belong to.                         *)
(* An output is [type, labels, data]: for "element" labels is a sequence   *)
(* of names, for "connection" of pairs of names; data maps variables to    *)
(* one row per label.  A mesh is its sequence of labels L and, per         *)
(* variable, one row per cell.                                             *)
(***************************************************************************)
EXTENDS Text
If(c, k) == IF c THEN {k} ELSE {}
SetOf(s) == {s[i] : i \in 1..Len(s)}
NoDup(s) == Cardinality(SetOf(s)) = Len(s)

\* ---- elements -------------------------------------------------------------
\* the output names every cell, and nothing else
Matches(L, labels) == Len(labels) = Len(L) /\ SetOf(labels) = SetOf(L)
Pos(labels, x) == CHOOSE i \in 1..Len(labels) : labels[i] = x
\* rows in the order of L
Reorder(L, labels, rows) == LET p == TLCEval([i \in 1..Len(L) |-> Pos(labels, L[i])]) IN TLCEval([i \in 1..Len(L) |-> rows[p[i]]])
Merge(cd, new) == [k \in DOMAIN cd \cup DOMAIN new |-> IF k \in DOMAIN new THEN new[k] ELSE cd[k]]
ReadElements(L, cd, labels, data) == Merge(cd, [k \in DOMAIN data |-> Reorder(L, labels, data[k])])
\* 0-based, negative from the end
StepOK(n, t) == -n <= t /\ t < n
Step(n, t) == IF t < 0 THEN n + t + 1 ELSE t + 1

\* ---- connections ------------------------------------------------------------
\* the cell a flow belongs to: flows are positive into the first cell
Owner(i1, i2, v) == IF v > 0 THEN i1 ELSE i2
Sub3(a, b) == <<a[1] - b[1], a[2] - b[2], a[3] - b[3]>>
Abs(x) == IF x < 0 THEN -x ELSE x
RECURSIVE Gcd(_, _)
Gcd(a, b) == IF b = 0 THEN a ELSE Gcd(b, a % b)
Reduce(d) == LET g == Gcd(Gcd(Abs(d[1]), Abs(d[2])), Abs(d[3])) IN <<d[1] \div g, d[2] \div g, d[3] \div g>>
RECURSIVE Root(_, _)
\* largest r <= hi with r*r <= n, by Newton's steps from above
Root(n, r) == LET q == (r + n \div r) \div 2 IN IF q >= r THEN r ELSE Root(n, q)
ISqrt(n) == IF n = 0 THEN 0 ELSE Root(n, MinOf(n, 46340))
Pow10(m) == CASE m = 0 -> 1 [] m = 1 -> 10 [] m = 2 -> 100 [] m = 3 -> 1000 [] OTHER -> 10000
Sgn(a, b) == IF a < 0 THEN -((-a) \div b) ELSE a \div b
\* v times the unit vector along d (a reduced integer vector), to the unit
Along(d, v) ==
   LET q == d[1] * d[1] + d[2] * d[2] + d[3] * d[3]
       m == IF q <= 21 THEN 4 ELSE IF q <= 2147 THEN 3 ELSE 2
       r == ISqrt(q * Pow10(m) * Pow10(m))
   IN [k \in 1..3 |-> Sgn(v * d[k] * Pow10(m), r)]
RECURSIVE Sum3(_, _)
Sum3(s, n) == IF n = 0 THEN <<0, 0, 0>> ELSE LET r == Sum3(s, n - 1) IN <<r[1] + s[n][1], r[2] + s[n][2], r[3] + s[n][3]>>
\* C: centre of each cell (integers, any common scale); conn: pairs of cells; v: one flow each
Flows(C, conn, v) ==
   LET n == Len(conn)
       vec == TLCEval([i \in 1..n |-> Along(Reduce(Sub3(C[conn[i][1]], C[conn[i][2]])), v[i])])
       own == TLCEval([i \in 1..n |-> Owner(conn[i][1], conn[i][2], v[i])])
   IN TLCEval([c \in 1..Len(C) |-> Sum3([i \in 1..n |-> IF own[i] = c THEN vec[i] ELSE <<0, 0, 0>>], n)])
=============================================================================
