-------------------------------- MODULE ResultsMC --------------------------------
(* Every short output on a mesh of a few cells.                               *)
EXTENDS Results, Json
CONSTANTS NCells, NNames, MaxConn, Mode, Emit
VARIABLES labels, conn, cd
vars == <<labels, conn, cd>>
Name(i) == "c" \o ToString(i)
L == [i \in 1..NCells |-> Name(i)]
\* the row of a label is the label itself: where it lands is visible
Rows(s) == [v |-> s]
Centre == [i \in 1..NCells |-> <<3 * i, IF i = 3 THEN 4 ELSE 0, 0>>]
Init == labels = <<>> /\ conn = <<>> /\ cd = [w |-> L]
\* an output grows label by label, or connection by connection; it may be read at any time
More == Mode = 1 /\ Len(labels) <= NCells /\ \E i \in 1..NNames : labels' = Append(labels, Name(i)) /\ UNCHANGED <<conn, cd>>
Read == Mode = 1 /\ Matches(L, labels) /\ cd' = ReadElements(L, cd, labels, Rows(labels)) /\ UNCHANGED <<labels, conn>>
Grow == Mode = 2 /\ Len(conn) < MaxConn /\ \E i, j \in 1..NCells, v \in {-2000, 0, 1000} :
           i # j /\ conn' = Append(conn, <<i, j, v>>) /\ UNCHANGED <<labels, cd>>
Next == More \/ Read \/ Grow
Spec == Init /\ [][Next]_vars
\* each cell gets the row of its own label, and keeps what it had
Own == \A i \in 1..NCells : cd.w[i] = L[i] /\ ("v" \in DOMAIN cd => cd.v[i] = L[i])
OnlyPerms == Matches(L, labels) <=> (Len(labels) = NCells /\ \A i \in 1..NCells : \E j \in 1..NCells : labels[j] = Name(i))
Pairs(c) == [i \in 1..Len(c) |-> <<c[i][1], c[i][2]>>]
Vals(c) == [i \in 1..Len(c) |-> c[i][3]]
F(c) == Flows(Centre, Pairs(c), Vals(c))
\* turning a connection round and its flow with it changes nothing
Turned == conn # <<>> /\ conn[1][3] # 0 =>
   F([conn EXCEPT ![1] = <<conn[1][2], conn[1][1], -conn[1][3]>>]) = F(conn)
\* nor does the order of the connections
Reversed == F([i \in 1..Len(conn) |-> conn[Len(conn) + 1 - i]]) = F(conn)
\* a flow enters exactly one cell
Single == Len(conn) = 1 => Cardinality({c \in 1..NCells : F(conn)[c] # <<0, 0, 0>>}) = (IF conn[1][3] = 0 THEN 0 ELSE 1)
Additive == Len(conn) = 2 => F(conn) = [c \in 1..NCells |-> LET a == F(<<conn[1]>>)[c] b == F(<<conn[2]>>)[c] IN <<a[1] + b[1], a[2] + b[2], a[3] + b[3]>>]
Roots == (Mode = 2 /\ conn = <<>>) => \A n \in 0..3000 : LET r == ISqrt(n) IN r * r <= n /\ (r + 1) * (r + 1) > n
Emitted == (Emit = 1 /\ cd = [w |-> L]) => IF Mode = 1 THEN (labels = <<>> \/ PrintT("@EL " \o ToJson([s |-> labels])))
                        ELSE (conn = <<>> \/ PrintT("@CO " \o ToJson([s |-> conn])))
=============================================================================
