----------------------------- MODULE DeckFormat -----------------------------
(***************************************************************************)
(* The fixed-column records of a TOUGH input deck, transcribed from the    *)
(* TOUGH2/TOUGH3 user guides (appendix "Input formats"), independently of  *)
(* the library's own table.  A record layout is a sequence of fields       *)
(* <<name, first column, width, kind, decimals>>, kind in                  *)
(*   "s" text, "i" integer, "f" number written with `decimals` decimals,   *)
(*   "S" raw text (blanks are significant), "-" unused columns.            *)
(***************************************************************************)
EXTENDS Text

F(n, c, w, k, p) == [n |-> n, c |-> c, w |-> w, k |-> k, p |-> p]
Row(names, c0, w, p) == [i \in 1..Len(names) |-> F(names[i], c0 + (i - 1) * w, w, "f", p)]
IRow(names, c0, w) == [i \in 1..Len(names) |-> F(names[i], c0 + (i - 1) * w, w, "i", 0)]
Num8 == <<"1","2","3","4","5","6","7","8">>
Num4 == <<"1","2","3","4">>
Num7 == SubSeq(Num8, 1, 7)
Num16 == Num8 \o <<"9","10","11","12","13","14","15","16">>

ROCKS1 == <<F("name",1,5,"s",0), F("nad",6,5,"i",0)>>
          \o Row(<<"density","porosity","per1","per2","per3","conductivity","specific_heat">>, 11, 10, 4)
Extra7 == <<"compressibility","expansivity","conductivity_dry","tortuosity","klinkenberg_parameter",
            "distribution_coefficient_3","distribution_coefficient_4">>
ROCKS2 == Row(Extra7, 1, 10, 4)
RPCAPR == <<F("id",1,5,"i",0)>> \o Row(Num7, 11, 10, 3)
FLAC1  == IRow(<<"creep","porosity_model","version">>, 1, 5)
FLAC2  == <<F("id",1,10,"i",0)>> \o Row(Num7, 11, 10, 3)
FLAC3  == RPCAPR
MULTI1 == IRow(<<"NK","NEQ","NPH","NB","NKIN">>, 1, 5)
SELEC1 == IRow(Num16, 1, 5)
SELEC2 == Row(Num8, 1, 10, 3)
SOLVR1 == <<F("method",1,1,"i",0), F("z_precond",4,2,"s",0), F("o_precond",9,2,"s",0),
            F("rel_iter_max",11,10,"f",4), F("eps",21,10,"f",4)>>
PARAM1 == <<F("n_iteration",1,2,"i",0), F("verbosity",3,2,"i",0), F("n_cycle",5,4,"i",0),
            F("n_second",9,4,"i",0), F("n_cycle_print",13,4,"i",0), F("mop",17,24,"S",0),
            F("temperature_dependence_gas",51,10,"f",4), F("effective_strength_vapor",61,10,"f",4)>>
PARAM2 == <<F("t_ini",1,10,"f",4), F("t_max",11,10,"f",4), F("delten",21,10,"f",1),
            F("t_step_max",31,10,"f",4), F("elst",41,10,"s",0), F("gravity",51,10,"f",4),
            F("t_reduce_factor",61,10,"f",4), F("mesh_scale_factor",71,10,"f",4)>>
TEN8   == Row(Num8, 1, 10, 4)
PARAM3 == <<F("eps1",1,10,"f",4), F("eps2",11,10,"f",4), F("w_upstream",31,10,"f",4),
            F("w_newton",41,10,"f",4), F("derivative_factor",51,10,"f",4)>>
VAR4   == Row(Num4, 1, 20, 13)
MOMOP1 == <<F("momop",1,40,"S",0)>>
TIMES1 == <<F("iti",1,5,"i",0), F("ite",6,5,"i",0), F("delaf",11,10,"f",4), F("tinter",21,10,"f",4)>>
NAME5  == <<F("name",1,5,"s",0)>>
OUTPU3 == <<F("name",1,20,"s",0), F("1",21,5,"i",0), F("2",26,5,"i",0)>>
TABLE4 == Row(Num4, 1, 14, 7)
COORD1 == Row(<<"1","2","3">>, 1, 20, 13)

\* the layouts that depend on the length L (5..9) of cell labels
GenW == [L \in 5..9 |-> CASE L = 5 -> <<5,5,5>> [] L = 6 -> <<6,4,4>> [] L = 7 -> <<5,4,4>>
                          [] L = 8 -> <<4,4,4>> [] OTHER -> <<5,3,3>>]
GENER1(L) == LET w == GenW[L] c == L + 6 IN
   <<F("label",1,L,"s",0), F("name",L+1,5,"s",0), F("nseq",c,w[1],"i",0),
     F("nadd",c+w[1],w[2],"i",0), F("nads",c+w[1]+w[2],w[3],"i",0), F("ltab",26,5,"i",0),
     F("type",36,4,"s",0), F("itab",40,1,"s",0), F("gx",41,10,"f",3), F("ex",51,10,"f",3),
     F("hg",61,10,"f",3)>>
EleW == [L \in 5..9 |-> CASE L = 5 -> <<5,5>> [] L = 6 -> <<5,4>> [] L = 7 -> <<4,4>>
                          [] L = 8 -> <<4,3>> [] OTHER -> <<3,3>>]
ELEME1(L) == LET w == EleW[L] c == L + 1 IN
   <<F("label",1,L,"s",0), F("nseq",c,w[1],"i",0), F("nadd",c+w[1],w[2],"i",0),
     F("material",16,5,"s",0), F("volume",21,10,"f",4), F("heat_exchange_area",31,10,"f",4),
     F("permeability_modifier",41,10,"f",4), F("x",51,10,"f",3), F("y",61,10,"f",3), F("z",71,10,"f",3)>>
ConW == [L \in 5..9 |-> CASE L = 5 -> <<5,5,5>> [] L = 6 -> <<5,4,4>> [] L = 7 -> <<5,3,3>>
                          [] L = 8 -> <<3,3,3>> [] OTHER -> <<3,2,2>>]
CONNE1(L) == LET w == ConW[L] c == 2 * L + 1 IN
   <<F("label",1,2*L,"s",0), F("nseq",c,w[1],"i",0), F("nad1",c+w[1],w[2],"i",0),
     F("nad2",c+w[1]+w[2],w[3],"i",0), F("permeability_direction",26,5,"i",0),
     F("d1",31,10,"f",4), F("d2",41,10,"f",4), F("interface_area",51,10,"f",4),
     F("gravity_cosine_angle",61,10,"f",3), F("radiant_emittance_factor",71,10,"f",3)>>
INCON1(L) == LET w == EleW[L] c == L + 1 IN
   <<F("label",1,L,"s",0), F("nseq",c,w[1],"i",0), F("nadd",c+w[1],w[2],"i",0), F("porosity",16,15,"f",9)>>
   \o Row(<<"u1","u2","u3","u4","u5">>, 31, 10, 3)

-----------------------------------------------------------------------------
(* Reading a record.                                                       *)
FieldValue(line, f) ==
   LET raw == Cols(line, f.c, f.w)
       t == Strip(raw)
   IN IF f.k = "S" THEN "s" \o raw
      ELSE IF t = "" THEN None
      ELSE IF f.k = "s" THEN "s" \o t
      ELSE IF f.k = "i" THEN IntText(t)
      ELSE FloatText(t)
Rec(line, lay) == [n \in {lay[i].n : i \in 1..Len(lay)} |->
                     LET i == CHOOSE i \in 1..Len(lay) : lay[i].n = n IN FieldValue(line, lay[i])]
\* the values of a record in field order
RecSeq(line, lay) == [i \in 1..Len(lay) |-> FieldValue(line, lay[i])]
NoBad(s) == \A i \in 1..Len(s) : s[i] # "BAD"
\* a line all of whose fields are numbers or blank
NumericLine(line, lay) == NoBad(RecSeq(line, lay))
\* columns of the record outside its fields are blank
RECURSIVE Gaps(_, _, _)
Gaps(line, lay, c) ==
   IF lay = <<>> THEN IsBlank(SubSeq(line, MinOf(c, Len(line) + 1), Len(line)))
   ELSE /\ IsBlank(Cols(line, c, lay[1].c - c))
        /\ Gaps(line, Tail(lay), lay[1].c + lay[1].w)
Clean(line, lay) == Gaps(line, lay, 1)

(* Rounding a canonical number to n significant digits (half away from     *)
(* zero; exact ties are never generated).                                  *)
NextDigit == [c \in Digits |-> CASE c = "0" -> "1" [] c = "1" -> "2" [] c = "2" -> "3" [] c = "3" -> "4"
   [] c = "4" -> "5" [] c = "5" -> "6" [] c = "6" -> "7" [] c = "7" -> "8" [] c = "8" -> "9" [] OTHER -> "0"]
RECURSIVE IncS(_)
IncS(d) == IF d = "" THEN "1"
           ELSE LET h == SubSeq(d, 1, Len(d) - 1) c == Ch(d, Len(d)) IN
                IF c = "9" THEN IncS(h) \o "0" ELSE h \o NextDigit[c]
RoundSig(v, n) ==
   LET d == FDigs(v) IN
   IF Len(d) <= n THEN v
   ELSE LET cut == SubSeq(d, 1, n)
            up == DigVal[Ch(d, n + 1)] >= 5
        IN MkFloat(FSign(v), IF up THEN IncS(cut) ELSE cut, FExp(v) + Len(d) - n)

\* decimals kept in a field of width w: all p of them unless the text would be too long
SciLen(v, p) == Len(FSign(v)) + 1 + (IF p > 0 THEN 1 + p ELSE 0)
                + (LET e == FExp(v) + Len(FDigs(v)) - 1 IN
                   IF v = "f0E0" \/ (e < 100 /\ e > -100) THEN 4 ELSE 5)
RECURSIVE FitP(_, _, _)
FitP(v, w, p) == IF p = 0 \/ SciLen(v, p) <= w THEN p ELSE FitP(v, w, p - 1)
\* what a number becomes when it is stored in field f
Stored(v, f) == IF v = None THEN None
                ELSE LET x == AsFloat(v) IN RoundSig(x, 1 + FitP(x, f.w, f.p))
FieldNamed(lay, n) == lay[CHOOSE i \in 1..Len(lay) : lay[i].n = n]
StoreAll(s, f) == [i \in 1..Len(s) |-> Stored(s[i], f)]

(* Writing a record: text of a value in field f (used to generate decks).  *)
FieldText(v, f) ==
   IF v = None THEN Rep(" ", f.w)
   ELSE IF f.k = "S" THEN PadR(Body(v), f.w)
   ELSE IF f.k = "s" THEN PadR(Body(v), f.w)
   ELSE IF f.k = "i" THEN PadL(IF v = "bT" THEN "1" ELSE IF v = "bF" THEN "0" ELSE Body(v), f.w)
   ELSE PadL(RenderE(Stored(v, f), FitP(AsFloat(v), f.w, f.p)), f.w)
RECURSIVE RecText_(_, _, _, _)
RecText_(d, lay, i, acc) ==
   IF i > Len(lay) THEN acc
   ELSE RecText_(d, lay, i + 1, PadR(acc, lay[i].c - 1) \o FieldText(Get(d, lay[i].n, None), lay[i]))
RecText(d, lay) == RecText_(d, lay, 1, "")
=============================================================================
