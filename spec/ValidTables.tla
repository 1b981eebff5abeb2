----------------------------- MODULE ValidTables -----------------------------
(* Prints the table of Valid for the harness, and checks it is consistent. *)
EXTENDS Valid, Json
VARIABLE x
Init == x = 0 /\ PrintT("@TABLE " \o ToJson(Table)) /\ PrintT("@ACCEPT " \o ToJson([t \in DOMAIN Accept |-> Accept[t]]))
              /\ PrintT("@KINDS " \o ToJson(Kinds))
Next == UNCHANGED x
Spec == Init /\ [][Next]_x
Sane == \A p \in DOMAIN Table : \A k \in DOMAIN Table[p] : Table[p][k] \in DOMAIN Accept /\ Refused(Table[p][k]) # {}
=============================================================================
