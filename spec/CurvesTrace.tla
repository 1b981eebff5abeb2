------------------------------ MODULE CurvesTrace ------------------------------
(* Recorded lives of curves: construction, new parameters, evaluations,      *)
(* drawings and descriptions.                                                *)
EXTENDS Curves, Json, IOUtils
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES l, st
\* events: make [fam, cls, ps, err]; set [ps, err]; pars [got]; about [id, name, lines];
\*   eval [form, sl, shape, err, got]; plot [n, given, err, shown, x, got]
SetOf(q) == {q[i] : i \in 1..Len(q)}
If(c, x) == IF c THEN {x} ELSE {}
None == [fam |-> "", cls |-> "", ps |-> <<>>]
Live == st.cls # ""
ParsOf(e) == IF e.default = "1" THEN VermaDefault ELSE e.ps
Make(e) == LET p == NumbersOf(ParsOf(e)) IN
   IF Refused(e.fam, e.cls, p) THEN If(e.err = "", "accepted") ELSE If(e.err # "", "raised")
Width == IF st.fam = "rel" THEN 2 ELSE 1
Number1(g) == IF g = "-inf" THEN MinusInfinity ELSE Units(g)
\* slack: 1e-10, and more for large pressures (which cancel)
Slack(p) == IF st.fam = "cap" /\ st.cls # "Milly" THEN FAdd(Units("1000000"), FMul(FAbs(p[1]), Units("100"))) ELSE Units("1000000")
Agree(g, w, p) == IF w = MinusInfinity \/ g = "-inf" THEN w = Number1(g) ELSE FClose(Units(g), w, Slack(p))
Numeric(g) == g \notin {"nan", "inf", "other"}
\* one row of results per saturation
Row1(g, sl, p) ==
   IF ~(\A i \in 1..Len(g) : Numeric(g[i])) THEN {"not_a_number"}
   ELSE IF Len(g) # Width THEN {"shape"}
   ELSE LET w == TLCEval(Value(st.fam, st.cls, p, sl)) o == Or(st.cls, p, sl) IN
        UNION {If(~(Agree(g[i], w[i], p) \/ (o # <<>> /\ FClose(Units(g[i]), o[i], Units("20000000000000")))), IF Width = 1 THEN "capillary_pressure" ELSE IF i = 1 THEN "liquid" ELSE "gas") : i \in 1..Width}
Eval(e) ==
   LET s == NumbersOf(e.sl)
       p == NumbersOf(st.ps)
       in == \A i \in 1..Len(s) : FLe(Zero, s[i]) /\ FLe(s[i], One)
   IN IF ~in \/ e.form = "nan" THEN If(e.err = "", "out_of_range_accepted") \cup If(e.err # "" /\ ~(e.err = "ValueError"), "error_type")
      ELSE IF ~Defined(st.fam, st.cls, p) THEN {}
      ELSE If(e.err # "", "raised") \cup
           (IF e.err # "" THEN {}
            ELSE If(e.shape # (IF e.form = "scalar" THEN <<>> ELSE IF Width = 2 THEN <<2, Len(s)>> ELSE <<Len(s)>>), "shape")
                 \cup (IF Len(e.got) # Len(s) THEN {"shape"} ELSE UNION {Row1(e.got[i], s[i], p) : i \in 1..Len(s)}))
\* a drawing: n points from 0 to 1, the curves as they are (pressures without sign)
Unsign(g) == IF SubSeq(g, 1, 1) = "-" THEN SubSeq(g, 2, Len(g)) ELSE g
Plot(e) ==
   LET p == NumbersOf(st.ps) IN
   IF e.bad = "1" THEN If(e.err = "", "accepted") \cup If(e.shown # "0", "rejected_plot_shown")
   ELSE IF ~Defined(st.fam, st.cls, p) THEN {}
   ELSE If(e.err # "", "raised") \cup
        (IF e.err # "" THEN {}
         ELSE If(e.shown # "1", "not_shown") \cup If(e.axes # "1", "axes") \cup If(Len(e.x) # e.n \/ Len(e.got) # e.n, "points") \cup
              (IF Len(e.x) # e.n \/ Len(e.got) # e.n THEN {}
               ELSE If(\E i \in 1..e.n : ~FClose(Units(e.x[i]), FDivInt(FInt(i - 1), e.n - 1), Units("100")), "abscissae")
                    \cup UNION {LET s == FDivInt(FInt(i - 1), e.n - 1)
                                    v == TLCEval(Value(st.fam, st.cls, p, s)) IN
                                IF st.fam = "rel" THEN Row1(e.got[i], s, p)
                                ELSE IF v[1] = MinusInfinity THEN If(e.got[i] # <<"inf">>, "drawn_pressure")
                                ELSE IF ~(\A j \in 1..Len(e.got[i]) : Numeric(e.got[i][j])) THEN {"not_a_number"}
                                ELSE If(~(SubSeq(e.got[i][1], 1, 1) # "-" /\ FClose(Units(e.got[i][1]), FAbs(v[1]), Slack(p))), "drawn_pressure") : i \in 1..e.n}))
Set(e) == IF Len(e.ps) # Size(st.fam, st.cls) THEN If(e.err = "", "accepted") ELSE If(e.err # "", "raised")
About(e) == If(e.id # Number(st.fam, st.cls), "number") \cup If(e.name # Title(st.fam, st.cls), "name") \cup If(e.lines # Says(st.fam, st.cls, st.ps), "description")
Clauses(e) == CASE e.ev = "make" -> Make(e) [] ~Live -> {} [] e.ev = "set" -> Set(e) [] e.ev = "pars" -> If(e.got # st.ps, "parameters")
                [] e.ev = "about" -> About(e) [] e.ev = "eval" -> Eval(e) [] e.ev = "plot" -> Plot(e) [] OTHER -> {"outside_specification"}
After(e) == CASE e.ev = "make" -> IF e.err = "" THEN [fam |-> e.fam, cls |-> e.cls, ps |-> ParsOf(e)] ELSE None
              [] e.ev = "set" /\ Live -> IF Len(e.ps) = Size(st.fam, st.cls) THEN [st EXCEPT !.ps = e.ps] ELSE st
              [] OTHER -> st
Init == l = 1 /\ st = None
Next == /\ l <= Len(Trace)
        /\ LET e == Trace[l] c == Clauses(e) IN
           /\ IF c = {} THEN TRUE ELSE PrintT("@FAIL " \o ToJson([l |-> l, clauses |-> c]))
           /\ st' = After(e)
        /\ l' = l + 1
TraceSpec == Init /\ [][Next]_<<l, st>>
TraceComplete == PrintT("@DONE " \o ToJson([n |-> TLCGet("stats").diameter - 1]))
=============================================================================
