--------------------------------- MODULE Big ---------------------------------
(* Natural numbers of any size, little-endian sequences of digits in base   *)
(* Base without leading zeros (0 is <<>>); TLC's own integers stop at 2^31. *)
(* Base = 10000 in use; BigMC checks the algorithms exhaustively in a small *)
(* base against TLC's integers.                                             *)
EXTENDS Integers, Sequences
CONSTANT Base

RECURSIVE BTrim(_)
BTrim(s) == IF s = <<>> THEN <<>> ELSE IF s[Len(s)] = 0 THEN BTrim(SubSeq(s, 1, Len(s) - 1)) ELSE s
RECURSIVE BNat(_)
BNat(n) == IF n = 0 THEN <<>> ELSE <<n % Base>> \o BNat(n \div Base)
RECURSIVE BVal(_)
BVal(s) == IF s = <<>> THEN 0 ELSE s[1] + Base * BVal(Tail(s))
BD(s, i) == IF i > Len(s) THEN 0 ELSE s[i]
BMaxLen(a, b) == IF Len(a) > Len(b) THEN Len(a) ELSE Len(b)

RECURSIVE BAdd_(_, _, _, _)
BAdd_(a, b, i, c) == IF i > BMaxLen(a, b) THEN (IF c = 0 THEN <<>> ELSE <<c>>)
                     ELSE LET s == BD(a, i) + BD(b, i) + c IN <<s % Base>> \o BAdd_(a, b, i + 1, s \div Base)
BAdd(a, b) == BAdd_(a, b, 1, 0)

\* -1, 0, 1
RECURSIVE BCmp_(_, _, _)
BCmp_(a, b, i) == IF i = 0 THEN 0 ELSE IF BD(a, i) # BD(b, i) THEN (IF BD(a, i) < BD(b, i) THEN -1 ELSE 1)
                  ELSE BCmp_(a, b, i - 1)
BCmp(a, b) == BCmp_(a, b, BMaxLen(a, b))
BLe(a, b) == BCmp(a, b) <= 0

\* a - b for b <= a
RECURSIVE BSub_(_, _, _, _)
BSub_(a, b, i, c) == IF i > Len(a) THEN <<>>
                     ELSE LET s == a[i] - BD(b, i) - c IN
                          <<IF s < 0 THEN s + Base ELSE s>> \o BSub_(a, b, i + 1, IF s < 0 THEN 1 ELSE 0)
BSub(a, b) == BTrim(BSub_(a, b, 1, 0))
BDist(a, b) == IF BLe(a, b) THEN BSub(b, a) ELSE BSub(a, b)

RECURSIVE BScale_(_, _, _, _)
BScale_(a, d, i, c) == IF i > Len(a) THEN (IF c = 0 THEN <<>> ELSE <<c>>)
                       ELSE LET s == a[i] * d + c IN <<s % Base>> \o BScale_(a, d, i + 1, s \div Base)
BDigitMul(a, d) == IF d = 0 THEN <<>> ELSE BScale_(a, d, 1, 0)
RECURSIVE BMul(_, _)
BMul(a, b) == IF b = <<>> \/ a = <<>> THEN <<>>
              ELSE BAdd(BDigitMul(a, b[1]), IF Len(b) = 1 THEN <<>> ELSE <<0>> \o BMul(a, Tail(b)))
BSq(a) == BMul(a, a)

BAbs(n) == BNat(IF n < 0 THEN -n ELSE n)
RECURSIVE BPow10(_)
BPow10(n) == IF n = 0 THEN BNat(1) ELSE IF n >= 4 THEN BMul(BNat(10000), BPow10(n - 4)) ELSE BMul(BNat(10), BPow10(n - 1))
\* digits of a string
RECURSIVE BText(_)
DV == [c \in {"0","1","2","3","4","5","6","7","8","9"} |->
   CASE c = "0" -> 0 [] c = "1" -> 1 [] c = "2" -> 2 [] c = "3" -> 3 [] c = "4" -> 4
     [] c = "5" -> 5 [] c = "6" -> 6 [] c = "7" -> 7 [] c = "8" -> 8 [] OTHER -> 9]
RECURSIVE SmallNat(_)
SmallNat(s) == IF s = "" THEN 0 ELSE 10 * SmallNat(SubSeq(s, 1, Len(s) - 1)) + DV[SubSeq(s, Len(s), Len(s))]
BText(s) == IF Len(s) <= 4 THEN BNat(SmallNat(s))
            ELSE BAdd(BMul(BText(SubSeq(s, 1, Len(s) - 4)), BPow10(4)), BNat(SmallNat(SubSeq(s, Len(s) - 3, Len(s)))))

\* |a - b| <= b * t / 10^6  (+ slack)
BClose(a, b, ppm, slack) == BLe(BMul(BDist(a, b), BPow10(6)), BAdd(BMul(b, BNat(ppm)), BMul(slack, BPow10(6))))
=============================================================================
