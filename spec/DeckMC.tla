------------------------------- MODULE DeckMC -------------------------------
(***************************************************************************)
(* The reader under every order of blocks.  A deck grows by one block at a *)
(* time (each keyword once, FLAC and INDOM after ROCKS, COORD after        *)
(* ELEME); in every state the reader machine is run over the deck so far.  *)
(*  Nothing swallowed: the machine stops at exactly the keywords laid down *)
(*  Order free:        the dictionary does not depend on the order         *)
(*  Progress:          every step moves the position forward               *)
(*  Clean:             no record is misread                                *)
(* Every deck is printed for replay in the real reader.                    *)
(***************************************************************************)
EXTENDS Deck, Json
CONSTANT MaxBlocks, Emit

E1 == "f125E-2"
E2 == "f-3E-9"
E3 == "f75E3"
V4(a, b, c, d) == RecText([x \in {"1","2","3","4"} |-> CASE x = "1" -> a [] x = "2" -> b [] x = "3" -> c [] OTHER -> d], VAR4)
Full4 == V4(E3, E1, E2, "f2E1")
T8(n) == RecText([x \in {Num8[i] : i \in 1..n} |-> E1], TEN8)
Tab(n) == RecText([x \in {Num4[i] : i \in 1..n} |-> E2], TABLE4)
Lab(s, t) == s \o "    0" \o t

\* [k keyword, b body lines]
V(k, b) == [k |-> k, b |-> b]
Variants == <<
  V("ROCKS", <<RecText([name |-> "sSAND", density |-> E3, per1 |-> E2, per2 |-> E2, per3 |-> E2], ROCKS1),
               RecText([name |-> "sCLAY", nad |-> "i2", porosity |-> E1, per1 |-> E1, per2 |-> E2, per3 |-> None], ROCKS1),
               RecText([tortuosity |-> E1], ROCKS2), RecText([id |-> "i7"] @@ ("1" :> E1), RPCAPR), "", "">>),
  V("ROCKS", <<RecText([name |-> "sSAND", nad |-> "i0"], ROCKS1),
               RecText([name |-> "sCLAY", nad |-> "i1"], ROCKS1), "", "">>),
  V("RPCAP", <<"", RecText([id |-> "i1"] @@ ("2" :> E1), RPCAPR)>>),
  V("FLAC", <<RecText([creep |-> "i1", version |-> "i7"], FLAC1), RecText([id |-> "i1"], FLAC2), RecText([id |-> "i3"], FLAC3),
              RecText([id |-> "i2"] @@ ("1" :> E1), FLAC2), RecText([id |-> "i3"], FLAC3), "">>),
  V("MULTI", <<RecText([NK |-> "i2", NEQ |-> "i3", NPH |-> "i2", NB |-> "i6"], MULTI1)>>),
  V("SOLVR", <<RecText([method |-> "i5", z_precond |-> "sZ1", eps |-> E2], SOLVR1)>>),
  V("START", <<"----*----1 MOP: 123456789*123456789*1234">>),
  V("PARAM", <<RecText([n_cycle |-> "i9", mop |-> "s1 2"], PARAM1), RecText([t_ini |-> E1, delten |-> "f-2E0"], PARAM2),
               T8(8), T8(1), RecText([eps1 |-> E2], PARAM3), Full4, V4(None, E1, None, None)>>),
  V("PARAM", <<RecText([n_cycle |-> "i9"], PARAM1), RecText([delten |-> E1], PARAM2), "", Full4>>),
  V("PARAM", <<"", "", "", "">>),
  V("SELEC", <<RecText(("1" :> "i2") @@ ("16" :> "i3"), SELEC1), RecText(("1" :> E1) @@ ("8" :> E2), SELEC2), "">>),
  V("SELEC", <<RecText(("2" :> "i4"), SELEC1)>>),
  V("INDOM", <<"CLAY", Full4, "SAND", V4(E1, None, None, None), "">>),
  V("INDOM", <<"CLAY", Full4, V4(E1, None, None, None), "">>),
  V("MOMOP", <<"  3  1">>),
  V("TIMES", <<RecText([iti |-> "i9"], TIMES1), T8(8), T8(1)>>),
  V("FOFT", <<"AAA10", "">>),
  V("COFT", <<"AAA10AAA11", "AAA10AAA12", "">>),
  V("GENER", <<RecText([label |-> "sAAA10", name |-> "sINJ 1", ltab |-> "i5", type |-> "sMASS", itab |-> "s1"], GENER1(5)),
               Tab(4), Tab(1), Tab(4), Tab(1), Tab(4), Tab(1),
               RecText([label |-> "sAAA10", type |-> "sDELV", gx |-> E1, ltab |-> "i3"], GENER1(5)), "">>),
  V("DIFFU", <<RecText(("1" :> E1) @@ ("2" :> E2), Row(Num8, 1, 10, 3)), RecText(("1" :> E2), Row(Num8, 1, 10, 3))>>),
  V("DIFFU", <<RecText(("1" :> E1), Row(Num8, 1, 10, 3)), "">>),
  V("OUTPU", <<"CSV">>),
  V("OUTPU", <<"CSV", "3", RecText([name |-> "sFLOW"] @@ ("1" :> "i2"), OUTPU3),
               RecText([name |-> "sPRES"], OUTPU3), RecText([name |-> "sFLOW"] @@ ("1" :> "i1") @@ ("2" :> "i4"), OUTPU3)>>),
  V("OUTPU", <<"    1", RecText([name |-> "sMASS FRACTION"], OUTPU3)>>),
  V("ELEME", <<RecText([label |-> "sAAA10", material |-> "sSAND", volume |-> E3, x |-> E1, y |-> E2, z |-> E2], ELEME1(5)),
               RecText([label |-> "sAAA11", material |-> "s   12"], ELEME1(5)), "">>),
  V("COORD", <<RecText(("1" :> E2) @@ ("2" :> E1) @@ ("3" :> E1), COORD1), RecText(("1" :> E1) @@ ("2" :> E1) @@ ("3" :> E1), COORD1), "">>),
  V("CONNE", <<RecText([label |-> "sAAA10AAA11", permeability_direction |-> "i1", d1 |-> E1, d2 |-> E1], CONNE1(5)), "+++">>),
  V("INCON", <<RecText([label |-> "sAAA10", porosity |-> E1], INCON1(5)), Full4, RecText([label |-> "sAAA11", u1 |-> E2], INCON1(5)),
               V4(E1, None, None, None), "+++">>),
  V("INCON", <<RecText([label |-> "sAAA10", porosity |-> E1], INCON1(5)), Full4, V4(None, E1, None, None), "">>),
  V("NOVER", <<>>)
>>
N == Len(Variants)

VARIABLE deck       \* sequence of variant numbers
Used(d) == {Variants[d[i]].k : i \in 1..Len(d)}
CanAdd(d, i) == LET k == Variants[i].k IN
   /\ k \notin Used(d)
   /\ (k \in {"FLAC", "INDOM"} => "ROCKS" \in Used(d))
   /\ (k = "COORD" => "ELEME" \in Used(d))
RECURSIVE Lines(_)
Lines(d) == IF d = <<>> THEN <<"a title">>
            ELSE Lines(SubSeq(d, 1, Len(d) - 1)) \o <<Variants[d[Len(d)]].k \o "----1----*----2">> \o Variants[d[Len(d)]].b
Text_(d) == Lines(d) \o <<"ENDCY", "PARAM">>

RECURSIVE SortSeq_(_)
SortSeq_(d) == IF Len(d) <= 1 THEN d
   ELSE LET m == CHOOSE i \in 1..Len(d) : \A j \in 1..Len(d) : d[i] <= d[j]
        IN <<d[m]>> \o SortSeq_(SubSeq(d, 1, m - 1) \o SubSeq(d, m + 1, Len(d)))

Init == deck = <<>>
Next == /\ Len(deck) < MaxBlocks
        /\ \E i \in 1..N : CanAdd(deck, i) /\ deck' = Append(deck, i)
        /\ Emit = 0 \/ PrintT("@DECK " \o ToJson([lines |-> Text_(deck')]))
Spec == Init /\ [][Next]_deck

NothingSwallowed == LET R == Parse(Text_(deck), 0) IN
   SeenKeys(R) = [i \in 1..(Len(deck) + 1) |-> IF i > Len(deck) THEN "ENDCY" ELSE Variants[deck[i]].k]
CleanRead == Parse(Text_(deck), 0).bad = {}
\* the order of blocks matters only through elements completed by COORD
OrderFree == Parse(Text_(deck), 0).d = Parse(Text_(SortSeq_(deck)), 0).d
RECURSIVE Forward(_)
Forward(R) == AtEnd(R) \/ LET Q == Step(R) IN Q.pos > R.pos /\ Forward(Q)
Progress == Forward(Start(Text_(deck), 0))
\* reading a truncated deck also ends (the machine may complain)
Truncated == \A k \in 0..Len(Text_(deck)) : Forward(Start(SubSeq(Text_(deck), 1, k), 0))
=============================================================================
