--------------------------------- MODULE Series ---------------------------------
(***************************************************************************)
(* Time series files.  A call gives a list of point data, a list of cell   *)
(* data and a list of times, any of which may be missing; the file holds   *)
(* one step per entry, in the order of time, steps of equal time in the    *)
(* order given.  Lists are sequences; a missing list has presence FALSE.   *)
(***************************************************************************)
EXTENDS Text
If(c, k) == IF c THEN {k} ELSE {}
SetOf(s) == {s[i] : i \in 1..Len(s)}

\* lengths: -1 when the argument is not given
Accept(np, nc, nt) ==
   LET n == IF np > 0 THEN np ELSE nc IN
   /\ np > 0 \/ nc > 0
   /\ nc > 0 => nc = n
   /\ nt >= 0 => nt = n
Steps(np, nc) == IF np > 0 THEN np ELSE nc

\* position of step i in the file: those earlier, and those equal but given before
\* le(a, b): times in order (a total preorder)
Places(ts, le(_, _)) ==
   LET L == TLCEval([i \in 1..Len(ts) |-> TLCEval([j \in 1..Len(ts) |-> le(ts[i], ts[j])]) ])
   IN TLCEval([i \in 1..Len(ts) |-> 1 + Cardinality({j \in 1..Len(ts) : L[j][i] /\ (~L[i][j] \/ j < i)})])
Order(ts, le(_, _)) == LET pl == Places(ts, le) IN TLCEval([p \in 1..Len(ts) |-> CHOOSE i \in 1..Len(ts) : pl[i] = p])

\* ---- canonical numbers in order --------------------------------------------------
\* sign, power of ten, and digits as two numbers
RECURSIVE Zeros(_)
Zeros(n) == IF n <= 0 THEN "" ELSE "0" \o Zeros(n - 1)
Key(v) == LET d == FDigs(v) \o Zeros(18 - Len(FDigs(v)))
          IN IF v = "f0E0" THEN <<0, 0, 0, 0>>
             ELSE TLCEval(<<IF FSign(v) = "-" THEN -1 ELSE 1, FExp(v) + Len(FDigs(v)), ToIntS(SubSeq(d, 1, 9)), ToIntS(SubSeq(d, 10, 18))>>)
MagLe(a, b) == a[2] < b[2] \/ (a[2] = b[2] /\ (a[3] < b[3] \/ (a[3] = b[3] /\ a[4] <= b[4])))
KeyLe(a, b) == IF a[1] # b[1] THEN a[1] < b[1] ELSE IF a[1] = 1 THEN MagLe(a, b) ELSE IF a[1] = 0 THEN TRUE ELSE MagLe(b, a)
NumLe(a, b) == KeyLe(Key(a), Key(b))
AsF(v) == IF IsInt(v) THEN AsFloat(v) ELSE v
=============================================================================
