-------------------------------- MODULE FixedMC --------------------------------
(* The laws of the fixed point arithmetic, on a grid of numbers.           *)
EXTENDS Fixed
CONSTANT N
VARIABLES a, b
Init == a = 0 /\ b = 0
Next == \/ a < N /\ a' = a + 1 /\ b' = b
        \/ b < N /\ b' = b + 1 /\ a' = a
Spec == Init /\ [][Next]_<<a, b>>
\* numbers from 1/7 to hundreds, and both signs
X == FDivInt(FMul(FInt(a + 1), FInt(a + 1)), 7)
Y == FDivInt(FInt(b - (N \div 2)), 3)
Eps == Units("1000")
Same(x, y) == FClose(x, y, Eps)
Inverses == Same(FExp(FLn(X)), X) /\ Same(FLn(FExp(Y)), Y)
Quotient == Same(FMul(FDiv(Y, X), X), Y) /\ Same(FDiv(FMul(X, Y), X), Y)
Product == Same(FLn(FMul(X, FAdd(FAbs(Y), One))), FAdd(FLn(X), FLn(FAdd(FAbs(Y), One))))
Powers == /\ Same(FPow(X, FInt(3)), FPowInt(X, 3)) /\ Same(FSq(FPow(X, Half)), X)
          /\ Same(FMul(FPow(X, Y), FPow(X, FNeg(Y))), One)
Signs == /\ FAdd(FSub(X, Y), Y) = X /\ FSub(X, X) = Zero /\ FCmp(X, Y) = -FCmp(Y, X) /\ FMul(FNeg(X), Y) = FNeg(FMul(X, Y))
         /\ FAdd(FAbs(Y), FNeg(FAbs(Y))) = Zero
Constants == /\ Same(FExp(One), Dec("2.7182818284590452")) /\ Same(FLn(FInt(10)), Dec("2.302585092994046"))
             /\ Same(FPow(FInt(10), Dec("-2.5")), Dec("0.0031622776601684")) /\ Same(FDiv(One, FInt(-8)), Dec("-0.125"))
=============================================================================
