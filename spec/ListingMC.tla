------------------------------- MODULE ListingMC -------------------------------
(* Small listings in all layouts, read again by the scanner.                    *)
EXTENDS Listing, Json
CONSTANTS NSteps, NRows, NVars, Lengths, Digs, Emit
VARIABLES elem, conn, lay, L
vars == <<elem, conn, lay, L>>
Values == <<"f1E5", "f-25E-1", "f-7E-120", "f0E0", "f-3E10", "fnan", "f-14E-7", "f999E97">>
Ts == <<"f1E4", "f864E2", "f31558E5">>
LabOf(n, k) == SubSeq("A B" \o ToString(10 + k) \o "34567", 1, n)
Pair(n, k) == <<LabOf(n, k), LabOf(n, k + 1)>>
Names == <<"P", "T(1)", "X_NaCl", "HEAT">>
Mk(ty, n, nr, nv, off, len) == [i \in 1..n |->
   [t |-> Ts[i], labels |-> [r \in 1..nr |-> IF ty = "element" THEN LabOf(len, r) ELSE Pair(len, r)], names |-> SubSeq(Names, 1, nv),
    rows |-> [r \in 1..nr |-> [q \in 1..nv |-> Values[((i * 5 + r * 3 + q + off) % Len(Values)) + 1]]]]]
Init ==
   /\ lay \in [start : {"one", "blank"}, ind : {1, 3}, page : {0, 1, 2}, units : {0, 1}, iw : {6}, d : Digs, gap : {0, 1}, more : {0, 1}]
   /\ L \in Lengths
   /\ \E n \in 1..NSteps, nr \in 1..NRows, nv \in 1..NVars, c \in 0..1 :
        /\ elem = Mk("element", n, nr, nv, 0, L)
        /\ conn = IF c = 1 THEN Mk("connection", n, nr, nv, 3, L) ELSE <<>>
Next == UNCHANGED vars
Spec == Init /\ [][Next]_vars
text == WriteListing(elem, conn, lay)
Elements == LET p == ParseListing(text, "element", L) IN p.ok /\ p.steps = elem
Connections == LET p == ParseListing(text, "connection", L) IN IF conn = <<>> THEN ~p.ok ELSE p.ok /\ p.steps = conn
Known == Detect(text) = "tough"
Emitted == (Emit = 1 /\ (lay.ind = 1) = (lay.gap = 0) /\ (lay.units = lay.more \/ lay.page = 1)) => PrintT("@LIST " \o ToJson([lines |-> text, L |-> L, conn |-> conn # <<>>]))
=============================================================================
