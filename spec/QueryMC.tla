--------------------------------- MODULE QueryMC ---------------------------------
(* Points and boxes around a few centres on a line and in a corner.            *)
EXTENDS Query, Json
CONSTANTS Ext, Emit
VARIABLES q
\* centres of voxels of widths 2, 4, 2 along x, and of a second row
C == <<<<1, 1, 1>>, <<4, 1, 1>>, <<7, 1, 1>>, <<1, 4, 1>>, <<4, 4, 1>>, <<7, 4, 1>>>>
Pt == {<<x, y, 1>> : x \in 0..Ext, y \in 0..3}
Bx == [has0 : BOOLEAN, lo : 0..Ext, hasd : BOOLEAN, len : 0..4]
Init == q \in [kind : {"near"}, p : Pt] \cup [kind : {"box"}, x : {b \in Bx : b.hasd => b.has0}, y : {[has0 |-> FALSE, lo |-> 0, hasd |-> FALSE, len |-> 0], [has0 |-> TRUE, lo |-> 2, hasd |-> TRUE, len |-> 2], [has0 |-> TRUE, lo |-> 1, hasd |-> TRUE, len |-> 0], [has0 |-> TRUE, lo |-> 1, hasd |-> FALSE, len |-> 0]}]
Next == UNCHANGED q
Spec == Init /\ [][Next]_q
Whole == [has0 |-> FALSE, lo |-> 0, hasd |-> FALSE, len |-> 0]
MkBox(x, y) == [has0 |-> <<x.has0, y.has0, FALSE>>, lo |-> <<x.lo, y.lo, 0>>, hasd |-> <<x.hasd, y.hasd, FALSE>>, len |-> <<x.len, y.len, 0>>]
\* some cell is nearest, and a centre is nearest to itself
Somewhere == q.kind = "near" => Nearest(C, q.p) # {}
Itself == q.kind = "near" /\ q.p \in SetOf(C) => \A i \in Nearest(C, q.p) : C[i] = q.p
\* moving everything moves nothing relative
Shift == q.kind = "near" => Nearest(C, q.p) = Nearest([i \in 1..Len(C) |-> <<C[i][1] + 7, C[i][2] - 3, C[i][3]>>], <<q.p[1] + 7, q.p[2] - 3, q.p[3]>>)
\* nearest along each axis first on a product grid
Product == q.kind = "near" => \A i \in Nearest(C, q.p) : \A j \in 1..Len(C) : Abs(C[i][1] - q.p[1]) <= Abs(C[j][1] - q.p[1])
\* a box is the intersection of its sides; the whole space holds all; sides cut it down
Sides == q.kind = "box" => Box(MkBox(q.x, q.y), C) = Box(MkBox(q.x, Whole), C) \cap Box(MkBox(Whole, q.y), C)
All == Box(MkBox(Whole, Whole), C) = 1..Len(C)
Cuts == q.kind = "box" => /\ Box(MkBox(q.x, q.y), C) \subseteq Box(MkBox([q.x EXCEPT !.hasd = FALSE], q.y), C)
                          /\ Box(MkBox(q.x, q.y), C) \subseteq Box(MkBox([q.x EXCEPT !.len = @ + 1], q.y), C)
\* a point box holds the centre it is put on
Thin == q.kind = "box" /\ q.x.hasd /\ q.x.len = 0 => \A i \in Box(MkBox(q.x, q.y), C) : C[i][1] = q.x.lo
Emitted == Emit = 1 => PrintT("@Q " \o ToJson(q))
=============================================================================
