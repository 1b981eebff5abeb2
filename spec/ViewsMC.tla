-------------------------------- MODULE ViewsMC --------------------------------
(* Two meshes and every short history of calls on them.                       *)
EXTENDS Views, Json
CONSTANTS Depth, Emit
VARIABLES ms, hist, n
vars == <<ms, hist, n>>
P1 == <<<<0,0>>, <<1,0>>, <<1,1>>, <<0,1>>>>
P2 == <<<<3,1>>, <<5,2>>, <<4,7>>, <<-2,3>>, <<9,9>>>>
B1 == <<[t |-> "triangle", n |-> <<<<0,1,2>>>>]>>
B2 == <<[t |-> "triangle", n |-> <<<<0,1,2>>>>], [t |-> "quad", n |-> <<<<0,1,2,3>>, <<3,2,1,0>>>>], [t |-> "triangle", n |-> <<<<1,2,3>>, <<0,2,3>>>>]>>
B3 == <<[t |-> "quad", n |-> <<<<0,1,2,3>>>>], [t |-> "line", n |-> <<>>], [t |-> "triangle", n |-> <<<<0,1,3>>>>]>>
Blocks == {B1, B2, B3}
Points == {P1, P2}
Ids(m) == [c \in 1..NCells(m) |-> <<"i" \o ToString(c)>>]
Calls ==
   {[op |-> "new", s |-> s, pts |-> P1, blocks |-> b, pd |-> <<>>, cd |-> <<>>, ps |-> <<>>, fd |-> <<>>] : s \in {1, 2}, b \in Blocks}
   \cup {[op |-> "copy", s |-> s, to |-> 3 - s] : s \in {x \in {1, 2} : ms[x].live = "1"}}
   \cup UNION {{[op |-> "points", s |-> s, pts |-> p] : p \in {q \in Points : ms[s].pd = <<>> \/ Len(q) = Len(ms[s].pts)}}
               \cup {[op |-> "move", s |-> s, i |-> 2, x |-> 1, v |-> 8]}
               \cup {[op |-> "cells", s |-> s, blocks |-> b] : b \in Blocks}
               \cup {[op |-> "regroup", s |-> s]}
               \cup {[op |-> "add_cell", s |-> s, k |-> k, v |-> Ids(ms[s])] : k \in {"u", "material"}}
               \cup {[op |-> "drop_cell", s |-> s, k |-> k] : k \in KeysOf(ms[s].cd)}
               \cup {[op |-> "add_point", s |-> s, k |-> "p", v |-> [i \in 1..Len(ms[s].pts) |-> <<"i0">>]]}
               \cup {[op |-> "field", s |-> s, k |-> "A", v |-> [id |-> "i1", dim |-> 2]]}
               : s \in {x \in {1, 2} : ms[x].live = "1"}}
Init == ms = <<NoMesh, NoMesh>> /\ hist = <<>> /\ n = 0
Next == /\ n < Depth
        /\ \E e \in Calls : ms' = Apply(e, ms) /\ hist' = (IF Emit = 1 THEN Append(hist, e) ELSE <<e>>)
        /\ n' = n + 1
Spec == Init /\ [][Next]_vars
Live == {s \in {1, 2} : ms[s].live = "1"}
RECURSIVE Flat(_)
Flat(ss) == IF ss = <<>> THEN <<>> ELSE Head(ss) \o Flat(Tail(ss))
SplitInverse == \A s \in Live : LET ids == [c \in 1..NCells(ms[s]) |-> c] IN Flat(Split(ms[s].blocks, ids)) = ids
Partition == \A s \in Live : LET d == CellsDict(ms[s]) IN
   /\ \A i, j \in 1..Len(d) : i # j => d[i].t # d[j].t
   /\ NCellsOf(d) = NCells(ms[s])
   /\ {d[i].t : i \in 1..Len(d)} = {ms[s].blocks[i].t : i \in 1..Len(ms[s].blocks)}
   /\ Grouped(d, {}) = d
Times(r, s) == Cardinality({i \in 1..Len(s) : s[i] = r})
SameCentres == \A s \in Live : LET a == Centres(ms[s]) b == Centres([ms[s] EXCEPT !.blocks = CellsDict(ms[s])])
   IN \A i \in 1..Len(a) : Times(a[i], a) = Times(a[i], b)
Aligned == \A s \in Live : /\ \A i \in 1..Len(ms[s].cd) : Len(ms[s].cd[i].v) = NCells(ms[s])
                           /\ \A i \in 1..Len(ms[s].pd) : Len(ms[s].pd[i].v) = Len(ms[s].pts)
OneLineEach == \A s \in Live : Len(Display(ms[s])) = 3 + Len(ms[s].blocks) + (IF ms[s].cd = <<>> THEN 0 ELSE 1) + (IF ms[s].pd = <<>> THEN 0 ELSE 1)
Apart == [][LET e == hist'[Len(hist')] IN \A s \in {1, 2} : s # (IF e.op = "copy" THEN e.to ELSE e.s) => ms'[s] = ms[s]]_vars
Emitted == (Emit = 1 /\ n = Depth) => PrintT("@HIST " \o ToJson(hist))
=============================================================================
