-------------------------------- MODULE Convert --------------------------------
(***************************************************************************)
(* toughio-extract and toughio-export: from the results of a simulation to *)
(* tables with coordinates and to meshes for visualisation.                *)
(* Coordinates are canonical numbers in files; K(v) is such a number in    *)
(* thousandths as an integer.                                              *)
(***************************************************************************)
EXTENDS Listing, TLC
RECURSIVE P10(_)
P10(n) == IF n = 0 THEN 1 ELSE 10 * P10(n - 1)
K(v) == LET e == FExp(v) + 3 d == ToNat(FDigs(v)) a == IF d = 0 THEN 0 ELSE IF e >= 0 THEN d * P10(e) ELSE d \div P10(-e)
        IN IF FSign(v) = "-" THEN -a ELSE a
Canon(n) == MkFloat(IF n < 0 THEN "-" ELSE "", ToString(IF n < 0 THEN -n ELSE n), -3)
Mid(a, b) == Canon((K(a) + K(b)) \div 2)
XYZ == <<"X", "Y", "Z">>

\* ---- extract ------------------------------------------------------------------------
\* centres of the elements of a MESH file
RECURSIVE ElemFrom(_, _, _)
ElemFrom(lines, i, L) ==
   IF Blank1(lines, i) THEN EmptyDict
   ELSE LET r == Rec(lines[i], ELEME1(L)) IN Overlay(Body(r["label"]) :> <<r["x"], r["y"], r["z"]>>, ElemFrom(lines, i + 1, L))
RECURSIVE BlockAt(_, _, _)
BlockAt(lines, w, i) == IF i > Len(lines) THEN 0 ELSE IF StartsWith(lines[i], w) THEN i ELSE BlockAt(lines, w, i + 1)
Centres(lines, L) == LET i == BlockAt(lines, "ELEME", 1) IN IF i = 0 THEN EmptyDict ELSE ElemFrom(lines, i + 1, L)
At3(C, lab, ty) == IF ty = "element" THEN C[lab] ELSE [d \in 1..3 |-> Mid(C[lab[1]][d], C[lab[2]][d])]
Named(C, lab, ty) == IF ty = "element" THEN lab \in DOMAIN C ELSE lab[1] \in DOMAIN C /\ lab[2] \in DOMAIN C
Covers(C, tab) == \A i \in 1..Len(tab.steps) : \A r \in 1..Len(tab.steps[i].labels) : Named(C, tab.steps[i].labels[r], tab.ty)
\* coordinates are three more variables of every row
WithXYZ(C, tab) ==
   [tab EXCEPT !.steps = [i \in 1..Len(@) |-> LET s == tab.steps[i]
        keep == TLCEval(SelectSeq([q \in 1..Len(s.names) |-> q], LAMBDA q : s.names[q] \notin SetOf(XYZ)))
     IN [s EXCEPT !.names = [q \in 1..Len(keep) |-> s.names[keep[q]]] \o XYZ,
                  !.rows = [r \in 1..Len(s.rows) |-> [q \in 1..Len(keep) |-> s.rows[r][keep[q]]] \o At3(C, s.labels[r], tab.ty)]]]]
Ext(fmt) == IF fmt = "tecplot" THEN ".tec" ELSE ".csv"
\* last dot of a name
RECURSIVE LastDot(_, _)
LastDot(s, i) == IF i = 0 THEN Len(s) + 1 ELSE IF Ch(s, i) = "." THEN i ELSE LastDot(s, i - 1)
OutName(o) == IF o.out # "" THEN o.out ELSE (IF o.conn = "1" THEN "OUTPUT_CONNE" ELSE "OUTPUT_ELEME") \o Ext(o.fmt)
StepName(n, i) == LET k == LastDot(n, Len(n)) IN SubSeq(n, 1, k - 1) \o "_" \o ToString(i) \o SubSeq(n, k, Len(n))
\* file name -> the table in it
Extracted(tab, o) ==
   LET n == Len(tab.steps) IN
   IF o.split = "1" /\ n > 1 THEN [x \in {StepName(OutName(o), i) : i \in 1..n} |->
                                     [tab EXCEPT !.steps = <<tab.steps[CHOOSE i \in 1..n : StepName(OutName(o), i) = x]>>]]
   ELSE OutName(o) :> tab

\* ---- export: what is to be shown -----------------------------------------------------
\* steps [t, labels, names, rows]; columns of coordinates
Coord(s, d) == IF XYZ[d] \in SetOf(s.names) THEN Col(s, XYZ[d]) ELSE [r \in 1..Len(s.rows) |-> "f0E0"]
HasXYZ(s) == SetOf(s.names) \cap SetOf(XYZ) # {}
Axes(s) == LET v == {d \in 1..3 : Cardinality(SetOf(Coord(s, d))) > 1} IN SelectSeq(<<1, 2, 3>>, LAMBDA d : d \in v)
Shown(s) == SetOf(s.names) \ SetOf(XYZ)
\* rows in the order of labels L
Follow(s, L) == LET at == TLCEval([k \in 1..Len(L) |-> CHOOSE r \in 1..Len(s.labels) : s.labels[r] = L[k]])
                IN [s EXCEPT !.labels = L, !.rows = TLCEval([k \in 1..Len(L) |-> s.rows[at[k]]])]
\* the nodes along one axis: every coordinate is the middle of its interval
RECURSIVE Nodes(_, _)
Nodes(x, o) == IF x = <<>> THEN <<o>> ELSE <<o>> \o Nodes(Tail(x), 2 * x[1] - o)
RECURSIVE SortInts(_)
SortInts(S) == IF S = {} THEN <<>> ELSE LET m == CHOOSE a \in S : \A b \in S : a <= b IN <<m>> \o SortInts(S \ {m})
\* intervals of the axis that start at o: coordinate -> <<lo, hi>>; an axis along which nothing varies has one interval of length one
Intervals(S, o) == IF Cardinality(S) = 1 THEN [x \in S |-> <<o, o + 1000>>]
                   ELSE LET x == SortInts(S) n == TLCEval(Nodes(x, o)) IN [v \in S |-> LET k == CHOOSE k \in 1..Len(x) : x[k] = v IN <<n[k], n[k + 1]>>]
Voxels(s, org) ==
   LET ax == Axes(s)
       c == TLCEval([d \in 1..3 |-> IF d \in SetOf(ax) THEN [r \in 1..Len(s.rows) |-> K(Coord(s, d)[r])] ELSE [r \in 1..Len(s.rows) |-> 0]])
       iv == TLCEval([d \in 1..3 |-> Intervals(SetOf(c[d]), org[d])])
   IN TLCEval([r \in 1..Len(s.rows) |-> [d \in 1..3 |-> iv[d][c[d][r]]]])
\* intervals that overlap are not claimed to be anything
Sound(v) == \A r \in 1..Len(v) : \A d \in 1..3 : v[r][d][1] < v[r][d][2]
\* the points fill a grid
Gridded(s) == LET n == [d \in 1..3 |-> Cardinality(SetOf(Coord(s, d)))] IN
              /\ Len(s.rows) = n[1] * n[2] * n[3]
              /\ \A i, j \in 1..Len(s.rows) : i # j => \E d \in 1..3 : Coord(s, d)[i] # Coord(s, d)[j]
OriginOK(s, org) == \A d \in 1..3 : d \in SetOf(Axes(s)) => \A r \in 1..Len(s.rows) : org[d] < K(Coord(s, d)[r])
\* step of the option, 0-based from either end
StepOK(n, t) == -n <= t /\ t < n
StepOf(n, t) == IF t < 0 THEN n + t + 1 ELSE t + 1
=============================================================================
