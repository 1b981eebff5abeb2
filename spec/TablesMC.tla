------------------------------- MODULE TablesMC -------------------------------
(* All small tables, laid out in every format and style, then read again.      *)
EXTENDS Tables, Json
CONSTANTS NSteps, NRows, NVars, NTimes, Rich, Emit
Values == <<"f1E0", "f-25E-1", "f0E0", "f123456789012E-300", "f7E100", "fnan", "f-33333333333E2", "f5E-5">>
AllTimes == <<"f0E0", "f1E6", "f-25E-1", "f86400123E-2">>
TimeSet == {AllTimes[i] : i \in 1..NTimes}
LabelSet == <<"AAA00", "TIME1", "A 1 5">>
PairSet == <<<<"AAA00", "AAA01">>, <<"AAA01", "A 1 5">>, <<"TIME1", "AAA00">>>>
NameSet == <<"P", "ELEM_T", "X_CO2 gas", "Z">>
VARIABLES tab, fmt, st
vars == <<tab, fmt, st>>
Styles == {[q |-> q, w |-> w, c |-> c] : q \in {0, 1}, w \in {1, 14, 20}, c \in {"e", "E"}}
\* values are spread over the table by position so that no two cells need be equal
Val(i, r, q, off) == LET n == (i * 7 + r * 3 + q + off) % Len(Values) IN Values[n + 1]
NamesOf(k, f) == IF f = "tecplot" THEN <<"X", "Y">> \o SubSeq(NameSet, 1, k) ELSE SubSeq(NameSet, 1, k)
MakeTab(ty, ts, labs, names, off, shift) ==
   [ty |-> ty, steps |-> [i \in 1..Len(ts) |->
      [t |-> ts[i], labels |-> [r \in 1..Len(labs) |-> labs[((r - 1 + shift * (i - 1)) % Len(labs)) + 1]], names |-> names,
       rows |-> [r \in 1..Len(labs) |-> [q \in 1..Len(names) |-> Val(i, r, q, off)]]]]]
Times(n) == {s \in [1..n -> TimeSet] : \A i, j \in 1..n : i # j => s[i] # s[j]}
Init ==
   \E f \in {"csv", "petrasim", "tecplot"}, ty \in {"element", "connection"}, n \in 1..NSteps, k \in 1..NRows, v \in 1..NVars, off \in 0..Rich, sh \in 0..1, s \in Styles :
     \E ts \in Times(n) \cup (IF n = 1 /\ f # "petrasim" THEN {<<None>>} ELSE {}) :
       /\ tab = MakeTab(ty, ts, SubSeq(IF ty = "element" THEN LabelSet ELSE PairSet, 1, k), NamesOf(v, f), off, sh)
       /\ fmt = f /\ st = s
       /\ Holds(tab, f)
       /\ (sh = 1 => n > 1 /\ k > 1)
Next == UNCHANGED vars
Spec == Init /\ [][Next]_vars
text == WriteAs(tab, fmt, st)
Back == LET p == Parse(text) IN SameTab(Rounded(p, fmt), Rounded(tab, fmt)) = {} /\ (fmt # "tecplot" => p = tab)
Known == Detect(text) = fmt /\ DetectType(text) = tab.ty
\* reordering twice gives the file back; asking for the file's own order changes nothing
Turn == (tab.ty = "element" /\ fmt # "tecplot") =>
   LET o == tab.steps[1].labels r == [i \in 1..Len(o) |-> o[Len(o) + 1 - i]]
   IN /\ CanOrder(tab, r)
      /\ Reorder(Reorder(tab, r), o) = Reorder(tab, o)
      /\ SameStep(Reorder(tab, o).steps[1], tab.steps[1]) = {}
      /\ ~CanOrder(tab, Tail(o))
\* rounding again loses nothing more
Idem == Rounded(Rounded(tab, fmt), fmt) = Rounded(tab, fmt)
Emitted == Emit = 1 => PrintT("@FILE " \o ToJson([fmt |-> fmt, ty |-> tab.ty, lines |-> text]))
=============================================================================
