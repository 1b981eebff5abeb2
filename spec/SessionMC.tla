------------------------------ MODULE SessionMC ------------------------------
(* Every history of calls up to MaxLen; each is printed for replay.        *)
EXTENDS Session, Json
CONSTANTS MaxLen, Emit
VARIABLES disk, hist
Init == disk = [f \in Files |-> Absent] /\ hist = <<>>
Do(op, f, p) ==
   /\ disk' = IF op = "write" THEN Write(disk, f, p) ELSE Read(disk, f)
   /\ hist' = Append(hist, [op |-> op, f |-> f, p |-> p, out |-> Outcome(op, p), disk |-> disk'])
   /\ Emit = 0 \/ Len(hist') < MaxLen \/ PrintT("@HIST " \o ToJson(hist'))
Next == /\ Len(hist) < MaxLen
        /\ \E f \in Files :
             \/ \E p \in Valid \cup Invalid : Do("write", f, p)
             \/ disk[f] # Absent /\ Do("read", f, disk[f])
Spec == Init /\ [][Next]_<<disk, hist>>
OnlyWritesChange == [][disk' # disk => hist'[Len(hist')].op = "write" /\ hist'[Len(hist')].p \in Valid]_<<disk, hist>>
LastValidWins == \A f \in Files : disk[f] =
   LET w == {i \in 1..Len(hist) : hist[i].op = "write" /\ hist[i].f = f /\ hist[i].p \in Valid}
   IN IF w = {} THEN Absent ELSE hist[CHOOSE i \in w : \A j \in w : j <= i].p
=============================================================================
