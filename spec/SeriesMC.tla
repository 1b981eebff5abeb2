-------------------------------- MODULE SeriesMC --------------------------------
(* All short lists of times, and all combinations of list lengths.            *)
EXTENDS Series, Json
CONSTANTS MaxSteps, Times, Off, Emit
VARIABLES ts
Init == ts = <<>>
Next == Len(ts) < MaxSteps /\ \E t \in Times : ts' = Append(ts, t - Off)
Spec == Init /\ [][Next]_ts
Le(a, b) == a <= b
o == Order(ts, Le)
Permutes == SetOf(o) = 1..Len(ts)
Sorted == \A p \in 1..(Len(ts) - 1) : ts[o[p]] <= ts[o[p + 1]]
Stable == \A p \in 1..(Len(ts) - 1) : ts[o[p]] = ts[o[p + 1]] => o[p] < o[p + 1]
\* numbers compare as their canonical texts do
TextOrder == \A i, j \in 1..Len(ts) : (ts[i] <= ts[j]) <=> NumLe(AsF("i" \o ToString(ts[i])), AsF("i" \o ToString(ts[j])))
\* a step added last does not disturb the others
Incremental == ts # <<>> =>
   LET f == SubSeq(ts, 1, Len(ts) - 1) p == Order(f, Le)
   IN SelectSeq(o, LAMBDA i : i # Len(ts)) = p
Emitted == (Emit = 1 /\ ts # <<>>) => PrintT("@TIMES " \o ToJson(ts))
Lengths == (Emit = 1 /\ ts = <<>>) => \A np, nc, nt \in (-1)..3 : PrintT("@LEN " \o ToJson([np |-> np, nc |-> nc, nt |-> nt]))
=============================================================================
