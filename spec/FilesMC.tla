-------------------------------- MODULE FilesMC --------------------------------
(* All short histories of commands on small files, any file as input or output. *)
EXTENDS Files, Json
CONSTANTS MaxOps, Full, Emit
VARIABLES fs, hist, fs0
vars == <<fs, hist, fs0>>
Names == {"DECK", "MESH", "INCON", "SAVE", "OUT"}
Decks == {<<"T", "ROCKS", "r", "", "PARAM", "p", "", "ENDCY", "">>, <<"T", "PARAM", "ROCKS", "r", "ENDFI", "ENDCY">>, <<"T", "ROCKS", "ROCKS", "PARAM", "">>,
          <<"T", "ROCKS", "ENDFI", "x", "ENDCY", "">>} \cup (IF Full = 1 THEN {<<"">>, <<"T", "rocks", "param", "endcy">>, <<"ENDCY", "">>} ELSE {})
Meshes == {Absent, <<"ELEME", "e", "", "CONNE", "c", "", "">>, <<"ELEME", "e">>, <<"CONNE", "">>} \cup (IF Full = 1 THEN {<<"">>, <<"", "ELEME", "">>} ELSE {})
Incons == {Absent, <<"INCON", "i", "+++", "n", "">>, <<"INCON", "i">>, <<"XNCON", "">>} \cup (IF Full = 1 THEN {<<"">>, <<"INCON", "", "">>} ELSE {})
Saves == {Absent, <<"INCON", "s", "+++", "n", "">>, <<"INCON", "s", "+++">>, <<"SAVE", "">>} \cup (IF Full = 1 THEN {<<"">>, <<"INCON">>} ELSE {})
Outs == {Absent, <<"old", "">>}
Init == /\ \E d \in Decks, m \in Meshes, i \in Incons, s \in Saves, o \in Outs : fs = [DECK |-> d, MESH |-> m, INCON |-> i, SAVE |-> s, OUT |-> o]
        /\ hist = <<>> /\ fs0 = fs
Cmds == {[op |-> "merge", i |-> i, out |-> o] : i \in {"DECK", "OUT"}, o \in {"DECK", "MESH", "INCON", "OUT", "nowhere"}}
        \cup {[op |-> p, i |-> i, out |-> o] : p \in {"incon", "reset"}, i \in {"SAVE", "INCON"}, o \in {"SAVE", "INCON", "OUT"}}
Next == Len(hist) < MaxOps /\ \E c \in Cmds : hist' = Append(hist, c) /\ fs' = After(fs, c) /\ UNCHANGED fs0
Spec == Init /\ [][Next]_vars
\* a command changes at most its output, and nothing when it is refused
Frame == [][LET c == hist'[Len(hist')] IN /\ \A n \in Names : n # c.out => fs'[n] = fs[n]
                                          /\ (~Accepted(fs, c) => fs' = fs)]_vars
\* no line of the inputs is lost, and the deck keeps its two parts around the inserted blocks
Lossless == [][LET c == hist'[Len(hist')] IN
   (c.op = "merge" /\ Accepted(fs, c)) =>
      LET r == LinesOf(fs'[c.out]) d == LinesOf(fs[c.i]) m == LinesOf(fs["MESH"]) q == LinesOf(fs["INCON"]) k == FirstEnd(d, 1)
      IN /\ Len(r) = Len(d) + Len(m) + Len(q)
         /\ SubSeq(r, 1, k - 1) = SubSeq(d, 1, k - 1)
         /\ SubSeq(r, Len(r) - (Len(d) - k), Len(r)) = SubSeq(d, k, Len(d))
         /\ SubSeq(r, k, k + Len(m) - 1) = m /\ SubSeq(r, k + Len(m), k + Len(m) + Len(q) - 1) = q
         /\ DeckOk(r)]_vars
\* converting twice is converting once
Again == [][LET c == hist'[Len(hist')] IN (c.op = "reset" /\ Accepted(fs, c)) =>
              /\ SaveOk(fs', c.out) /\ Incon(fs', c.out, FALSE) = fs'[c.out]
              /\ FirstPlus(LinesOf(fs'[c.out]), 1) = Len(LinesOf(fs'[c.out])) + 1]_vars
TypeOK == \A n \in Names : fs[n] = Absent \/ Len(fs[n]) > 0
Emitted == (Emit = 1 /\ Len(hist) = MaxOps) => PrintT("@HIST " \o ToJson([fs |-> fs0, ops |-> hist]))
=============================================================================
