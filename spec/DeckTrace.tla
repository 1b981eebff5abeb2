------------------------------ MODULE DeckTrace ------------------------------
(* Recorded calls of write_input / read_input judged against Deck.         *)
EXTENDS Deck, Json, IOUtils
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLE l

Tag(s, set) == {s \o x : x \in set}
If(c, k) == IF c THEN {k} ELSE {}

RoundTrip(e) == IF e.err # "" THEN {"raised"} ELSE Tag("readback_", Diff(Norm(e.P), e.Q))
LayoutOK(e) ==
   IF e.err # "" THEN {"raised"}
   ELSE LET R == Parse(e.lines, e.ll) IN
        Tag("text_", Diff(Norm(e.P), R.d)) \cup LayoutClauses(e.P, e.lines, R)
        \cup If(e.narrow # 0, "record_not_80_columns")
Foreign(e) == IF e.err # "" THEN {"raised"} ELSE Tag("read_", Diff(Parse(e.lines, e.ll).d, e.Q))
\* Q0 read (own: from a deck the library wrote), P0 its meaning for the writer,
\* Q[i+1] = read(write(Q[i])); digests of the texts written
Cycle(e) ==
   IF e.err # "" THEN {"raised"}
   ELSE (IF e.own = "1" THEN Tag("cycle1_", Diff(e.Q0, e.Q[1])) ELSE {})
        \cup Tag("norm_", Diff(Norm(e.P0), e.Q[1]))
        \cup UNION {Tag("cycle_", Diff(e.Q[i], e.Q[i + 1])) : i \in 1..(Len(e.Q) - 1)}
        \cup If(\E i \in (IF e.own = "1" THEN 1 ELSE 2)..(Len(e.texts) - 1) : e.texts[i] # e.texts[i + 1], "text_not_stable")
\* JSON: flattened dictionaries, and the same parameters for the writer
Range(s) == {s[i] : i \in 1..Len(s)}
Flat(e) ==
   IF e.err # "" THEN {"raised"}
   ELSE LET A == Range(e.A) B == Range(e.B) IN
        If(A \ B # {}, "json_lost_or_changed") \cup If(B \ A # {}, "json_added_or_changed")
        \cup If(\E k \in DOMAIN e.PA : e.PA[k] # e.PB[k], "json_parameters_differ")
\* a file cut short: reading ends
Cut(e) == If(e.err = "HANG", "does_not_terminate")
Same(e) == IF e.err # "" THEN {"raised"} ELSE Tag("differs_", Diff(e.A, e.B))
Clauses(e) == CASE e.ev = "roundtrip" -> RoundTrip(e)
                [] e.ev = "layout" -> LayoutOK(e)
                [] e.ev = "foreign" -> Foreign(e)
                [] e.ev = "cycle" -> Cycle(e)
                [] e.ev = "same" -> Same(e)
                [] e.ev = "flat" -> Flat(e)
                [] e.ev = "cut" -> Cut(e)
                [] OTHER -> {"unknown_event"}
Init == l = 1
Next == /\ l <= Len(Trace)
        /\ LET c == Clauses(Trace[l]) IN
           IF c = {} THEN TRUE ELSE PrintT("@FAIL " \o ToJson([l |-> l, clauses |-> c]))
        /\ l' = l + 1
TraceSpec == Init /\ [][Next]_l
TraceComplete == PrintT("@DONE " \o ToJson([n |-> TLCGet("stats").diameter - 1]))
=============================================================================
