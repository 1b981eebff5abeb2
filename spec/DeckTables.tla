----------------------------- MODULE DeckTables -----------------------------
(* Prints the record layouts of DeckFormat for the harness: independently  *)
(* written decks are laid out with the tables of the specification.        *)
EXTENDS DeckFormat, Json
VARIABLE x
Fixed == [ROCKS1 |-> ROCKS1, ROCKS2 |-> ROCKS2, RPCAPR |-> RPCAPR, FLAC1 |-> FLAC1, FLAC2 |-> FLAC2, FLAC3 |-> FLAC3,
          MULTI1 |-> MULTI1, SELEC1 |-> SELEC1, SELEC2 |-> SELEC2, SOLVR1 |-> SOLVR1, PARAM1 |-> PARAM1,
          PARAM2 |-> PARAM2, TEN8 |-> TEN8, PARAM3 |-> PARAM3, VAR4 |-> VAR4, TIMES1 |-> TIMES1, NAME5 |-> NAME5,
          OUTPU3 |-> OUTPU3, TABLE4 |-> TABLE4, COORD1 |-> COORD1, DIFFU1 |-> Row(Num8, 1, 10, 3)]
Init == /\ x = 0 /\ PrintT("@FIXED " \o ToJson(Fixed))
        /\ \A L \in 5..9 : PrintT("@L " \o ToJson([len |-> L, GENER1 |-> GENER1(L), ELEME1 |-> ELEME1(L),
                                                   CONNE1 |-> CONNE1(L), INCON1 |-> INCON1(L)]))
Next == UNCHANGED x
Spec == Init /\ [][Next]_x
=============================================================================
