-------------------------------- MODULE BigMC --------------------------------
(* The long arithmetic of Big against TLC's integers, in a small base.      *)
EXTENDS Big, TLC
CONSTANT N
VARIABLES a, b
Init == a = 0 /\ b = 0
Next == \/ a < N /\ a' = a + 1 /\ b' = b
        \/ b < N /\ b' = b + 1 /\ a' = a
Spec == Init /\ [][Next]_<<a, b>>
A == BNat(a)
B == BNat(b)
Normal(s) == s = <<>> \/ s[Len(s)] # 0
Codec == BVal(A) = a /\ Normal(A)
Sum == BAdd(A, B) = BNat(a + b)
Product == BMul(A, B) = BNat(a * b)
Difference == BDist(A, B) = BNat(IF a < b THEN b - a ELSE a - b)
Order == BCmp(A, B) = (IF a < b THEN -1 ELSE IF a > b THEN 1 ELSE 0)
=============================================================================
