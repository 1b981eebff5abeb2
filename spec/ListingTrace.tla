------------------------------ MODULE ListingTrace ------------------------------
(* Recorded reads of listings, SAVE files and history files.                    *)
EXTENDS Listing, Json, IOUtils
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLE l
Sch(p, S) == {p \o x : x \in S}
Judge(e, tab, fmt) ==
   IF e.err # "" THEN {"raised"}
   ELSE If(\E i \in 1..Len(e.kinds) : e.kinds[i] # <<tab.ty, fmt>>, "kind_of_output") \cup SameTab(tab, [ty |-> tab.ty, steps |-> e.read])
List(e) ==
   LET p == ParseListing(e.lines, e.ty, e.L) tab == [ty |-> e.ty, steps |-> p.steps] IN
   IF ~p.ok THEN If(e.err = "", "missing_table_accepted") \cup If(StartsWith(e.err, "HANG"), "hang")
   ELSE IF e.order = <<>> THEN Judge(e, tab, "tough")
   ELSE IF e.ty = "element" /\ ~CanOrder(tab, e.order) THEN If(e.err = "", "bad_order_accepted")
   ELSE Judge(e, IF e.ty = "element" THEN Reorder(tab, e.order) ELSE tab, "tough")
Save(e) ==
   LET els == TLCEval(ParseSave(e.lines, e.L, e.nv))
       own == {Drop(els[i].label, 1) : i \in 1..Len(els)}
       ok == e.order = <<>> \/ (Len(e.order) = Len(els) /\ SetOf(e.order) = own)
       x == TLCEval(IF e.order = <<>> THEN els ELSE SaveOrder(els, e.order))
       d == TLCEval(SaveData(x, e.nv))
   IN IF ~ok THEN If(e.err = "", "bad_order_accepted")
      ELSE IF e.err # "" THEN {"raised"}
      ELSE If(e.kind # <<"element", "save">>, "kind_of_output") \cup If(e.time # None, "time")
           \cup If(e.labels # [i \in 1..Len(x) |-> Drop(x[i].label, 1)], "labels")
           \cup If(DOMAIN e.data # DOMAIN d, "variables")
           \cup If(\E k \in DOMAIN e.data \cap DOMAIN d : e.data[k] # d[k], "values")
Hist(e) == IF e.err # "" THEN {"raised"}
           ELSE LET h == ParseHistory(e.lines) IN If(DOMAIN e.data # DOMAIN h, "variables") \cup If(\E k \in DOMAIN e.data \cap DOMAIN h : e.data[k] # h[k], "values")
Clauses(e) == CASE e.ev = "list" -> List(e) [] e.ev = "save" -> Save(e) [] e.ev = "history" -> Hist(e)
                [] e.ev = "refuse" -> If(e.err = "", "accepted") \cup If(StartsWith(e.err, "HANG"), "hang")
Init == l = 1
Next == /\ l <= Len(Trace)
        /\ LET c == Clauses(Trace[l]) IN
           IF c = {} THEN TRUE ELSE PrintT("@FAIL " \o ToJson([l |-> l, clauses |-> c]))
        /\ l' = l + 1
TraceSpec == Init /\ [][Next]_l
TraceComplete == PrintT("@DONE " \o ToJson([n |-> TLCGet("stats").diameter - 1]))
=============================================================================
