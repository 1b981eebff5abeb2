------------------------------ MODULE NumberMC ------------------------------
(***************************************************************************)
(* Numbers in fixed-width fields.  A number grows digit by digit; in every *)
(* state, for every field kind of a deck: its text fits the field, reading *)
(* the text gives the stored value, storing again changes nothing, and the *)
(* stored value is within half a unit of the last kept digit.              *)
(***************************************************************************)
EXTENDS DeckFormat
CONSTANT MaxDigits, DigitSet
VARIABLES ds, sg, ex
Fields == {F("x", 1, 10, "f", 4), F("x", 1, 10, "f", 3), F("x", 1, 10, "f", 1), F("x", 1, 14, "f", 7), F("x", 1, 15, "f", 9), F("x", 1, 20, "f", 13)}
Exps == {-308, -101, -100, -99, -10, -1, 0, 1, 9, 99, 100, 250}
Num == MkFloat(sg, ds, ex)
Init == /\ ds = "" /\ sg \in {"", "-"} /\ ex \in Exps
Next == /\ Len(ds) < MaxDigits
        /\ \E c \in DigitSet : (ds # "" \/ c # "0") /\ ds' = ds \o c
        /\ UNCHANGED <<sg, ex>>
Spec == Init /\ [][Next]_<<ds, sg, ex>>
Val == IF ds = "" THEN "f0E0" ELSE Num
Fits    == \A f \in Fields : Len(RenderE(Stored(Val, f), FitP(Val, f.w, f.p))) <= f.w
                             \/ FExp(Stored(Val, f)) + Len(FDigs(Stored(Val, f))) # FExp(Val) + Len(FDigs(Val))   \* carried into a longer exponent
ReadBack == \A f \in Fields : FloatText(RenderE(Stored(Val, f), FitP(Val, f.w, f.p))) = Stored(Val, f)
Idempotent == \A f \in Fields : Stored(Stored(Val, f), f) = Stored(Val, f)
SameText == \A f \in Fields : LET s == Stored(Val, f) IN
              RenderE(s, FitP(Val, f.w, f.p)) = RenderE(Stored(s, f), FitP(s, f.w, f.p))
              \/ FitP(s, f.w, f.p) # FitP(Val, f.w, f.p)
FewDigits == \A f \in Fields : Len(FDigs(Stored(Val, f))) <= f.p + 1
=============================================================================
