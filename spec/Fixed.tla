--------------------------------- MODULE Fixed ---------------------------------
(***************************************************************************)
(* Real numbers in fixed point, in units of 10^-16: a sign and a natural   *)
(* number of any size.  Logarithm, exponential and powers are computed to  *)
(* about 15 decimals by their series; FixedMC checks the laws they obey.   *)
(***************************************************************************)
EXTENDS Integers, Sequences, TLC
LOCAL INSTANCE Big WITH Base <- 10000
Limbs == 4
Fx(s, m) == [s |-> IF m = <<>> THEN 1 ELSE s, m |-> m]
Zero == Fx(1, <<>>)
FInt(n) == Fx(IF n < 0 THEN -1 ELSE 1, IF n = 0 THEN <<>> ELSE <<0, 0, 0, 0>> \o BAbs(n))
One == FInt(1)
FNeg(a) == Fx(-a.s, a.m)
FAbs(a) == Fx(1, a.m)
FAdd(a, b) == IF a.s = b.s THEN Fx(a.s, TLCEval(BAdd(a.m, b.m)))
              ELSE IF BLe(b.m, a.m) THEN Fx(a.s, TLCEval(BSub(a.m, b.m))) ELSE Fx(b.s, TLCEval(BSub(b.m, a.m)))
FSub(a, b) == FAdd(a, FNeg(b))
Shift(m, k) == IF Len(m) <= k THEN <<>> ELSE SubSeq(m, k + 1, Len(m))
FMul(a, b) == Fx(a.s * b.s, TLCEval(BTrim(Shift(BMul(a.m, b.m), Limbs))))
\* division by a small number (below 2 * 10^5)
RECURSIVE DivSmall_(_, _, _, _), Digit(_, _, _, _), Div_(_, _, _, _, _)
DivSmall_(m, d, i, r) == IF i = 0 THEN <<>> ELSE LET t == r * 10000 + m[i] IN Append(DivSmall_(m, d, i - 1, t % d), t \div d)
FDivInt(a, d) == Fx(a.s, TLCEval(BTrim(DivSmall_(a.m, d, Len(a.m), 0))))
\* largest d in lo..hi with d * b <= r
Digit(r, b, lo, hi) == IF lo = hi THEN lo ELSE LET d == (lo + hi + 1) \div 2 IN
                       IF BLe(BTrim(BDigitMul(b, d)), r) THEN Digit(r, b, d, hi) ELSE Digit(r, b, lo, d - 1)
Div_(m, b, i, r, q) ==
   IF i = 0 THEN BTrim(q)
   ELSE LET t == TLCEval(BTrim(<<m[i]>> \o r))
            d == TLCEval(IF BCmp(t, b) < 0 THEN 0 ELSE Digit(t, b, 1, 9999))
        IN Div_(m, b, i - 1, TLCEval(IF d = 0 THEN t ELSE BSub(t, BTrim(BDigitMul(b, d)))), TLCEval(<<d>> \o q))
FDiv(a, b) == IF a.m = <<>> THEN Zero ELSE LET m == <<0, 0, 0, 0>> \o a.m IN Fx(a.s * b.s, TLCEval(Div_(m, b.m, Len(m), <<>>, <<>>)))
FCmp(a, b) == IF a.s # b.s THEN (IF a.s < b.s THEN -1 ELSE 1) ELSE a.s * BCmp(a.m, b.m)
FLt(a, b) == FCmp(a, b) < 0
FLe(a, b) == FCmp(a, b) <= 0
FMax(a, b) == IF FLt(a, b) THEN b ELSE a
FMin(a, b) == IF FLt(b, a) THEN b ELSE a
FSq(a) == FMul(a, a)
\* a decimal text ("-12.5", at most 16 decimals), and a whole number of units
RECURSIVE Point(_, _), Zeros(_)
Point(t, i) == IF i > Len(t) THEN 0 ELSE IF SubSeq(t, i, i) = "." THEN i ELSE Point(t, i + 1)
Zeros(n) == IF n = 0 THEN "" ELSE "0" \o Zeros(n - 1)
Units(t) == IF SubSeq(t, 1, 1) = "-" THEN Fx(-1, TLCEval(BTrim(BText(SubSeq(t, 2, Len(t)))))) ELSE Fx(1, TLCEval(BTrim(BText(t))))
Dec(t) == LET k == Point(t, 1)
              w == IF k = 0 THEN t ELSE SubSeq(t, 1, k - 1)
              f == IF k = 0 THEN "" ELSE SubSeq(t, k + 1, Len(t))
          IN Units(w \o f \o Zeros(16 - Len(f)))
\* ---- elementary functions ------------------------------------------------------
Ln2 == Units("6931471805599453")
RECURSIVE AtanhSeries(_, _, _, _), ExpSeries(_, _, _), Halve(_, _), Twice(_, _)
\* the terms u^(2i+1) / (2i+1) from i on; p = u^(2i+1)
AtanhSeries(p, u2, i, acc) == IF p.m = <<>> THEN acc
   ELSE AtanhSeries(TLCEval(FMul(p, u2)), u2, i + 1, TLCEval(FAdd(acc, FDivInt(p, 2 * i + 1))))
\* ln x, 0 < x: x = 2^k y with y about 1
Near == Units("14142135623730950")
Half == Units("5000000000000000")
FScale2(a, k) == IF k >= 0 THEN Twice(a, k) ELSE Halve(a, -k)
Twice(a, k) == IF k = 0 THEN a ELSE Twice(TLCEval(FAdd(a, a)), k - 1)
Halve(a, k) == IF k = 0 THEN a ELSE Halve(TLCEval(FDivInt(a, 2)), k - 1)
LnNear(y) == LET u == TLCEval(FDiv(FSub(y, One), FAdd(y, One))) s == TLCEval(AtanhSeries(u, FSq(u), 0, Zero)) IN FAdd(s, s)
RECURSIVE Ln_(_, _)
Ln_(y, k) == IF FLt(Near, y) THEN Ln_(TLCEval(FDivInt(y, 2)), k + 1)
             ELSE IF FLt(FAdd(y, y), Near) THEN Ln_(TLCEval(FAdd(y, y)), k - 1)
             ELSE TLCEval(FAdd(LnNear(y), FMul(FInt(k), Ln2)))
FLn(x) == Ln_(x, 0)
ExpSeries(t, r, i) == IF t.m = <<>> THEN Zero ELSE TLCEval(FAdd(t, ExpSeries(TLCEval(FDivInt(FMul(t, r), i)), r, i + 1)))
\* the whole part of |a|, when small
FWhole(a) == BVal(Shift(a.m, Limbs))
FExp(x) == IF x.s = -1 /\ FLt(x, FInt(-40)) THEN Zero
           ELSE LET k == FWhole(FDiv(x, Ln2))
                    kk == x.s * k
                    r == TLCEval(FSub(x, FMul(FInt(kk), Ln2)))
                IN FScale2(TLCEval(ExpSeries(One, r, 1)), kk)
FPow(x, p) == IF x.m = <<>> THEN (IF p.m = <<>> THEN One ELSE Zero)
              ELSE IF x = One \/ p.m = <<>> THEN One
              ELSE TLCEval(FExp(TLCEval(FMul(p, FLn(x)))))
RECURSIVE FPowInt(_, _)
FPowInt(x, n) == IF n = 0 THEN One ELSE TLCEval(FMul(x, FPowInt(x, n - 1)))
\* |a - b| <= |b| / 10^8 + slack
FClose(a, b, slack) == FLe(FAbs(FSub(a, b)), FAdd(FMul(FAbs(b), Units("100000000")), slack))
=============================================================================
