-------------------------------- MODULE CurvesMC --------------------------------
(* Every class of curve over a lattice of parameters, walked from dry to    *)
(* fully saturated.                                                          *)
EXTENDS Curves, Json
CONSTANTS Steps, Fine, Emit
VARIABLES curve, k, was, now
vars == <<curve, k, was, now>>
F(n) == <<n>>
RelPars(c) ==
   LET r == IF Fine = 1 THEN {"0.0", "0.05", "0.25", "0.3", "0.75"} ELSE {"0.0", "0.25", "0.3"} IN
   CASE c = "Linear" -> {<<a, b, x, y>> : a \in {"0.0", "0.2"}, b \in {"0.0", "0.3"}, x \in {"0.2", "0.8", "1.0"}, y \in {"0.3", "0.9"}}
     [] c = "Pickens" -> {<<x>> : x \in {"0.5", "1.0", "2.0", "3.7"}}
     [] c \in {"Corey", "Grant"} -> {<<a, b>> : a \in r, b \in {"0.0", "0.05", "0.25", "0.75"}}
     [] c = "FattKlikoff" -> {<<a>> : a \in r \cup {"1.0"}}
     [] c = "vanGenuchtenMualem" -> {<<m, a, s, g>> : m \in {"0.457", "0.5", "1.0"}, a \in r, s \in {"0.8", "0.95", "1.0"}, g \in {"0.0", "0.1"}}
     [] OTHER -> {VermaDefault, <<"0.0", "1.0", "1.0", "-1.0", "0.0">>, <<"0.1", "0.6", "0.5", "1.5", "-3.0">>}
CapPars(c) ==
   CASE c = "Linear" -> {<<x, a, b>> : x \in {"1000000.0", "2.5"}, a \in {"0.0", "0.25"}, b \in {"0.25", "0.4", "1.0"}}
     [] c = "Pickens" -> {<<"1000000.0", a, b, x>> : a \in {"0.0", "0.1", "0.3", "1.0"}, b \in {"0.9", "1.0", "1.3"}, x \in {"0.8", "2.0", "0.0"}}
     [] c = "TRUST" -> {<<"1000000.0", a, x, e, m>> : a \in {"-0.1", "0.0", "0.3"}, x \in {"1.3", "2.0", "0.0"}, e \in {"0.0", "0.8"}, m \in {"10000000.0", "-500.0"}}
     [] c = "Milly" -> {<<a>> : a \in {"-0.1", "0.0", "0.05", "0.25", "0.7"}}
     [] OTHER -> {<<m, a, x, y, s>> : m \in {"0.457", "0.7"}, a \in {"0.0", "0.15"}, x \in {"0.0005105", "0.02"}, y \in {"10000000.0", "0.0", "-1.0"}, s \in {"0.8", "1.0"}}
Pars(fam, c) == IF fam = "rel" THEN RelPars(c) ELSE CapPars(c)
Curve == UNION {{[fam |-> "rel", cls |-> RelNames[i], ps |-> q] : q \in RelPars(RelNames[i])} : i \in 1..Len(RelNames)}
         \cup UNION {{[fam |-> "cap", cls |-> CapNames[i], ps |-> q] : q \in CapPars(CapNames[i])} : i \in 1..Len(CapNames)}
P == NumbersOf(curve.ps)
Fit == LET p == P IN ~Refused(curve.fam, curve.cls, p) /\ Defined(curve.fam, curve.cls, p)
At(c, j) == LET p == NumbersOf(c.ps) IN Value(c.fam, c.cls, p, FDivInt(FInt(j), Steps))
Start(c) == LET p == NumbersOf(c.ps) IN IF ~Refused(c.fam, c.cls, p) /\ Defined(c.fam, c.cls, p) THEN TLCEval(At(c, 0)) ELSE <<>>
Init == curve \in Curve /\ k = 0 /\ now = Start(curve) /\ was = now
Next == k < Steps /\ now # <<>> /\ k' = k + 1 /\ was' = now /\ now' = TLCEval(At(curve, k')) /\ UNCHANGED curve
Spec == Init /\ [][Next]_vars
Rl == now # <<>> /\ curve.fam = "rel"
Cp == now # <<>> /\ curve.fam = "cap"
Minus == Cp /\ now[1] = MinusInfinity
Eps == Units("1000000")
AlmostLe(a, b) == FLe(a, FAdd(b, FAdd(Eps, FMul(FAbs(b), Units("100000000")))))
\* relative permeabilities lie in [0, 1]; the liquid's grows and the gas's decreases
Bounds == Rl => \A i \in 1..2 : FLe(Zero, now[i]) /\ FLe(now[i], One)
Grows == Rl => AlmostLe(was[1], now[1])
Falls == (Rl /\ curve.cls # "Verma") => AlmostLe(now[2], was[2])
Ends == (Rl /\ k = Steps /\ curve.cls # "Linear") => now[1] = One
GasStops == (Rl /\ k = Steps /\ curve.cls \in {"Corey", "Grant", "FattKlikoff", "vanGenuchtenMualem"}) => now[2] = Zero
Complement == (Rl /\ (curve.cls = "Grant" \/ (curve.cls = "vanGenuchtenMualem" /\ P[4] = Zero))) => FAdd(now[1], now[2]) = One
\* no liquid flows at or below the residual saturation
Residual == (Rl /\ curve.cls \in {"Corey", "Grant", "FattKlikoff", "Verma"} /\ FLe(FDivInt(FInt(k), Steps), P[1])) => now[1] = Zero
\* capillary pressures are suctions, weaker and weaker as the liquid saturation grows
Suction == (Cp /\ ~Minus) => FLe(now[1], Zero)
Weaker == (Cp /\ ~Minus /\ was[1] # MinusInfinity /\ (curve.cls \in {"Linear", "TRUST", "vanGenuchten"})) => AlmostLe(was[1], now[1])
Limit == (Cp /\ ~Minus) => CASE curve.cls = "TRUST" -> FLe(FAbs(now[1]), FAbs(P[5])) [] curve.cls = "vanGenuchten" -> FLe(FAbs(now[1]), P[4])
                             [] curve.cls = "Linear" -> FLe(FAbs(now[1]), P[1]) [] OTHER -> TRUE
NoneAtFull == (Cp /\ k = Steps /\ curve.cls \in {"TRUST", "vanGenuchten", "Linear"} /\ curve.ps[3] # "2.0") => now[1] = Zero
\* the limit of the suction is reached at the residual saturation
Dry == (Cp /\ k = 0) => CASE curve.cls = "Linear" -> now[1] = FNeg(P[1]) [] curve.cls = "TRUST" -> now[1] = FNeg(FAbs(P[5])) [] curve.cls = "vanGenuchten" -> now[1] = FNeg(P[4]) [] OTHER -> TRUE
\* van Genuchten's pressure and saturation are inverses of each other
Same(a, b) == FClose(a, b, Units("1000000000"))
Inverse == (Cp /\ curve.cls = "vanGenuchten" /\ k > 0 /\ k < Steps /\ FLt(FNeg(P[4]), now[1]) /\ FLt(now[1], Zero)) =>
   LET p == P IN
   LET x == TLCEval(FPow(FMul(FAbs(now[1]), FAbs(p[3])), FDiv(One, FSub(One, p[1])))) IN
   Same(FPow(FAdd(One, x), FNeg(p[1])), FDiv(FSub(FDivInt(FInt(k), Steps), p[2]), FSub(p[5], p[2])))
Refusals == (now = <<>>) <=> ~Fit
Emitted == (Emit = 1 /\ k = 0) => PrintT("@CURVE " \o ToJson([fam |-> curve.fam, cls |-> curve.cls, ps |-> curve.ps]))
=============================================================================
