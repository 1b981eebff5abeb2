------------------------------- MODULE GridMC -------------------------------
(* Every product grid up to N cells a side with increments 1..W.           *)
EXTENDS Grid
CONSTANTS N, W
VARIABLES inc, layer, dim
Incs == UNION {[1..n -> 1..W] : n \in 1..N}
Init == /\ layer \in BOOLEAN /\ dim \in {2, 3} /\ inc = <<>>
Next == /\ Len(inc) < dim /\ \E s \in Incs : inc' = Append(inc, s)
        /\ UNCHANGED <<layer, dim>>
Spec == Init /\ [][Next]_<<inc, layer, dim>>
Done == Len(inc) = dim
Org == [d \in 1..dim |-> 3 * d]
n == Count(inc)
At(p) == Box(inc, layer, p)
Bijective == Done => {At(p) : p \in 0..(n - 1)} = Boxes(inc) /\ Cardinality(Boxes(inc)) = n
\* order: top to bottom; within, monotone in the faster coordinates
TopDown == Done /\ dim = 3 => \A p, q \in 0..(n - 1) :
   LET a == At(p) b == At(q) IN
   IF layer THEN (p < q) = (<<-a[3], a[2], a[1]>> # <<-b[3], b[2], b[1]>> /\
        (a[3] > b[3] \/ (a[3] = b[3] /\ (a[2] < b[2] \/ (a[2] = b[2] /\ a[1] < b[1])))))
   ELSE (p < q) = (a # b /\ (a[1] < b[1] \/ (a[1] = b[1] /\ (a[2] < b[2] \/ (a[2] = b[2] /\ a[3] > b[3])))))
\* neighbours touch, boxes do not overlap
Tiling == Done => \A a, b \in Boxes(inc) :
   LET la == Lo(inc, Org, a) ha == Hi(inc, Org, a) lb == Lo(inc, Org, b) hb == Hi(inc, Org, b) IN
   /\ a # b => \E d \in 1..dim : ha[d] <= lb[d] \/ hb[d] <= la[d]
   /\ Adjacent(a, b) <=> Cardinality(Corners(inc, Org, a) \cap Corners(inc, Org, b)) = (IF dim = 3 THEN 4 ELSE 2)
NodeCount == Done => Cardinality(Nodes(inc, Org)) =
   (Len(inc[1]) + 1) * (Len(inc[2]) + 1) * (IF dim = 3 THEN Len(inc[3]) + 1 ELSE 1)
=============================================================================
