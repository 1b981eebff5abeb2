--------------------------------- MODULE Curves ---------------------------------
(***************************************************************************)
(* Relative permeability and capillary pressure curves (IRP and ICP of     *)
(* TOUGH), in exact fixed point.  A curve is a class name and parameters;  *)
(* all numbers are those of Fixed.                                         *)
(***************************************************************************)
EXTENDS Fixed
RelNames == <<"Linear", "Pickens", "Corey", "Grant", "FattKlikoff", "vanGenuchtenMualem", "Verma">>
CapNames == <<"Linear", "Pickens", "TRUST", "Milly", "vanGenuchten">>
Number(fam, cls) ==
   IF fam = "rel" THEN CASE cls = "Linear" -> 1 [] cls = "Pickens" -> 2 [] cls = "Corey" -> 3 [] cls = "Grant" -> 4
                         [] cls = "FattKlikoff" -> 6 [] cls = "vanGenuchtenMualem" -> 7 [] OTHER -> 8
   ELSE CASE cls = "Linear" -> 1 [] cls = "Pickens" -> 2 [] cls = "TRUST" -> 3 [] cls = "Milly" -> 4 [] OTHER -> 7
Title(fam, cls) ==
   CASE cls = "FattKlikoff" -> "Fatt-Klikoff" [] cls = "vanGenuchtenMualem" -> "van Genuchten-Mualem"
     [] cls = "vanGenuchten" -> "van Genuchten" [] OTHER -> cls
Size(fam, cls) ==
   IF fam = "rel" THEN CASE cls = "Linear" -> 4 [] cls = "Pickens" -> 1 [] cls \in {"Corey", "Grant"} -> 2 [] cls = "FattKlikoff" -> 1
                         [] cls = "vanGenuchtenMualem" -> 4 [] OTHER -> 5
   ELSE CASE cls = "Linear" -> 3 [] cls = "Pickens" -> 4 [] cls = "Milly" -> 1 [] OTHER -> 5
VermaDefault == <<"0.2", "0.895", "1.259", "-1.7615", "0.5089">>
\* parameters a constructor must refuse
Refused(fam, cls, p) ==
   IF fam = "rel" THEN CASE cls = "Linear" -> FLe(p[3], p[1]) \/ FLe(p[4], p[2])
                         [] cls \in {"Corey", "Grant"} -> FLe(One, FAdd(p[1], p[2]))
                         [] cls = "FattKlikoff" -> FLe(One, p[1])
                         [] OTHER -> FALSE
   ELSE CASE cls = "Linear" -> FLe(p[3], p[2])
          [] cls = "Pickens" -> FLe(p[2], Zero) \/ FLe(One, p[2]) \/ FLt(p[3], One) \/ p[4] = Zero
          [] cls = "TRUST" -> FLt(p[2], Zero) \/ p[3] = Zero
          [] cls = "Milly" -> FLt(p[1], Zero)
          [] OTHER -> FLt(p[4], Zero)
\* accepted parameters for which the formula is defined on the whole of [0, 1]
Defined(fam, cls, p) ==
   IF fam = "rel" THEN CASE cls = "Pickens" -> FLt(Zero, p[1])
                         [] cls = "vanGenuchtenMualem" -> FLt(Zero, p[1]) /\ FLe(Zero, p[2]) /\ FLt(p[2], p[3]) /\ FLe(Zero, p[4]) /\ FLt(FAdd(p[2], p[4]), One)
                         [] cls = "Verma" -> FLt(p[1], p[2])
                         [] OTHER -> TRUE
   ELSE CASE cls = "vanGenuchten" -> FLt(Zero, p[1]) /\ FLt(p[1], One) /\ FLe(Zero, p[2]) /\ FLt(p[2], p[5]) /\ p[3] # Zero
          [] OTHER -> TRUE
Clip(x) == FMin(FMax(x, Zero), One)
\* ---- relative permeabilities of liquid and gas -----------------------------------
Ramp(x, lo, hi) == IF FLe(hi, x) THEN One ELSE IF FLe(x, lo) THEN Zero ELSE FDiv(FSub(x, lo), FSub(hi, lo))
CoreyGas(h) == FMul(FSub(One, FSq(h)), FSq(FSub(One, h)))
Rel(cls, p, sl) ==
   LET sg == FSub(One, sl) IN
   CASE cls = "Linear" -> <<Ramp(sl, p[1], p[3]), Ramp(sg, p[2], p[4])>>
     [] cls = "Pickens" -> <<FPow(sl, p[1]), One>>
     [] cls \in {"Corey", "Grant"} ->
          LET h == TLCEval(Clip(FDiv(FSub(sl, p[1]), FSub(FSub(One, p[1]), p[2]))))
              kl == TLCEval(FPowInt(h, 4))
          IN <<kl, IF cls = "Corey" THEN CoreyGas(h) ELSE FSub(One, kl)>>
     [] cls = "FattKlikoff" ->
          LET e == TLCEval(FMax(FDiv(FSub(sl, p[1]), FSub(One, p[1])), Zero)) IN <<FPowInt(e, 3), FPowInt(FSub(One, e), 3)>>
     [] cls = "vanGenuchtenMualem" ->
          IF FLe(p[3], sl) THEN <<One, Zero>>
          ELSE LET m == p[1]
                   e == TLCEval(FDiv(FSub(sl, p[2]), FSub(p[3], p[2])))
                   h == TLCEval(Clip(FDiv(FSub(sl, p[2]), FSub(FSub(One, p[2]), p[4]))))
                   u == TLCEval(IF FLe(e, Zero) THEN Zero ELSE FSub(One, FPow(FSub(One, FPow(e, FDiv(One, m))), m)))
                   kl == TLCEval(IF FLe(e, Zero) THEN Zero ELSE FMul(FPow(e, Half), FSq(u)))
               IN <<kl, IF p[4] = Zero THEN FSub(One, kl) ELSE CoreyGas(h)>>
     [] OTHER ->
          LET h == TLCEval(Clip(FDiv(FSub(sl, p[1]), FSub(p[2], p[1]))))
          IN <<FPowInt(h, 3), Clip(FAdd(p[3], FAdd(FMul(p[4], h), FMul(p[5], FSq(h)))))>>
\* ---- capillary pressure ----------------------------------------------------------
MinusInfinity == [s |-> 0, m |-> <<>>]
\* no pressure at full saturation, reached linearly from 0.999 on
Fade(x, sl) == IF FLt(Dec("0.999"), sl) THEN FMul(x, FMul(FSub(One, sl), FInt(1000))) ELSE x
MillyAt(p, sl, near) ==
   LET d == TLCEval(FSub(FMax(sl, FMul(Dec("1.001"), p[1])), p[1])) IN
   IF d = Zero THEN MinusInfinity
   ELSE FMul(Dec("-97.783"), IF (IF near THEN FLt(Dec("0.371"), d) ELSE FLe(Dec("0.371"), d)) THEN One
                             ELSE FPow(FInt(10), FSub(FMul(Dec("2.26"), FPow(FSub(FDiv(Dec("0.371"), d), One), Dec("0.25"))), FInt(2))))
Cap(cls, p, sl) ==
   CASE cls = "Linear" -> FNeg(FMul(p[1], FSub(One, Ramp(sl, p[2], p[3]))))
     [] cls = "Pickens" ->
          LET s == TLCEval(FMin(FMax(sl, FMul(Dec("1.001"), p[2])), FMul(Dec("0.999"), p[3])))
              a == TLCEval(FDiv(FMul(FAdd(One, FDiv(s, p[3])), FSub(p[3], p[2])), FAdd(p[3], p[2])))
              b == TLCEval(FSub(One, FDiv(s, p[3])))
              r == TLCEval(FDiv(a, b))
              q == TLCEval(FLn(FMul(r, FAdd(One, FPow(FSub(One, FSq(FDiv(b, a))), Half)))))
          IN FNeg(FMul(p[1], FPow(q, FDiv(One, p[4]))))
     [] cls = "TRUST" ->
          IF sl = One THEN Zero
          ELSE IF FLe(sl, p[2]) THEN FNeg(FAbs(p[5]))
          ELSE Fade(FMax(FNeg(FAdd(p[4], FMul(p[1], FPow(FDiv(FSub(One, sl), FSub(sl, p[2])), FDiv(One, p[3]))))), FNeg(FAbs(p[5]))), sl)
     [] cls = "Milly" -> MillyAt(p, sl, FALSE)
     [] OTHER ->
          IF sl = One \/ FLe(p[5], sl) THEN Zero
          ELSE IF FLe(sl, p[2]) THEN Fade(FNeg(p[4]), sl)
          ELSE LET e == TLCEval(FDiv(FSub(sl, p[2]), FSub(p[5], p[2])))
                   base == TLCEval(FSub(FPow(e, FNeg(FDiv(One, p[1]))), One))
               IN Fade(FMax(FNeg(FDiv(FPow(base, FSub(One, p[1])), FAbs(p[3]))), FNeg(p[4])), sl)
Value(fam, cls, p, sl) == IF fam = "rel" THEN Rel(cls, p, sl) ELSE <<Cap(cls, p, sl)>>
\* the value of the other branch where two branches meet with a jump: the rounding of a
\* difference may take either
Or(cls, p, sl) == IF cls = "Milly" /\ FSub(sl, p[1]) = Dec("0.371") THEN <<MillyAt(p, sl, TRUE)>> ELSE <<>>
NumbersOf(ps) == TLCEval([i \in 1..Len(ps) |-> Dec(ps[i])])
\* ---- what a curve says of itself ---------------------------------------------------
Says(fam, cls, ps) ==
   <<Title(fam, cls) \o (IF fam = "rel" THEN " relative permeability model (IRP = " ELSE " capillarity model (ICP = ") \o ToString(Number(fam, cls)) \o "):">>
   \o [i \in 1..Len(ps) |-> "    " \o (IF fam = "rel" THEN "RP(" ELSE "CP(") \o ToString(i) \o ") = " \o ps[i]]
=============================================================================
