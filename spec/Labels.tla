------------------------------- MODULE Labels -------------------------------
(***************************************************************************)
(* Cell labels: an odometer of wheels.  A label of length L is one letter, *)
(* two characters of 1-9A-Z, and L-3 decimal digits; cell i gets the i-th  *)
(* reading of the odometer, so labels are pairwise distinct until the      *)
(* first wheel wraps.                                                      *)
(***************************************************************************)
EXTENDS Text

CONSTANTS NAlpha,    \* positions of the first wheel   (26)
          NNomen,    \* positions of wheels 2 and 3    (35)
          NNum       \* positions of a digit wheel     (10)

Alpha == "ABCDEFGHIJKLMNOPQRSTUVWXYZ"
Nomen == "123456789ABCDEFGHIJKLMNOPQRSTUVWXYZ"
Num   == "0123456789"

RECURSIVE Pow(_, _)
Pow(b, n) == IF n = 0 THEN 1 ELSE b * Pow(b, n - 1)

Capacity(L) == NAlpha * NNomen * NNomen * Pow(NNum, L - 3)
\* smallest label length able to name n cells
AutoLength(n) == CHOOSE L \in 5..9 : /\ n <= Capacity(L)
                                     /\ L > 5 => n > Capacity(L - 1)

Radix(L) == [k \in 1..L |-> IF k = 1 THEN NAlpha ELSE IF k <= 3 THEN NNomen ELSE NNum]
Zero(L)  == [k \in 1..L |-> 0]
Glyph(L, w) == [k \in 1..L |-> IF k = 1 THEN Ch(Alpha, w[k] + 1)
                               ELSE IF k <= 3 THEN Ch(Nomen, w[k] + 1) ELSE Ch(Num, w[k] + 1)]
RECURSIVE Join(_, _)
Join(g, k) == IF k > Len(g) THEN "" ELSE g[k] \o Join(g, k + 1)
Text_(L, w) == Join(Glyph(L, w), 1)

\* one click of the odometer
RECURSIVE Click(_, _, _)
Click(L, w, k) == IF k = 0 THEN Zero(L)
                  ELSE IF w[k] + 1 < Radix(L)[k] THEN [w EXCEPT ![k] = @ + 1]
                  ELSE Click(L, [w EXCEPT ![k] = 0], k - 1)
Succ(L, w) == Click(L, w, L)

\* reading number i, directly
RECURSIVE Wheels(_, _, _)
Wheels(L, i, k) == IF k = 0 THEN <<>>
                   ELSE Append(Wheels(L, i \div Radix(L)[k], k - 1), i % Radix(L)[k])
LabelWheels(L, i) == Wheels(L, i, L)
Label(L, i) == Text_(L, LabelWheels(L, i))
=============================================================================
