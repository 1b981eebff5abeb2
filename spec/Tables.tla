-------------------------------- MODULE Tables --------------------------------
(***************************************************************************)
(* Files of simulation results: CSV (TOUGH3), PetraSim and Tecplot tables. *)
(* A table is [ty, steps] where ty is "element" or "connection" and every  *)
(* step is [t, labels, names, rows]: time (None when the file has none),   *)
(* one label (or pair) per row, the names of the variables, and the rows   *)
(* as sequences of canonical numbers.  Tecplot has no labels (<<>>).       *)
(***************************************************************************)
EXTENDS DeckFormat
If(c, k) == IF c THEN {k} ELSE {}
SetOf(s) == {s[i] : i \in 1..Len(s)}
Q == "\""
RECURSIVE NoQ(_), Split(_, _), SkipSp(_, _), Toks(_)
NoQ(s) == LET i == Find(s, {Q}, 1) IN IF i = 0 THEN s ELSE SubSeq(s, 1, i - 1) \o NoQ(SubSeq(s, i + 1, Len(s)))
Split(s, C) == LET i == Find(s, C, 1) IN IF i = 0 THEN <<s>> ELSE <<SubSeq(s, 1, i - 1)>> \o Split(SubSeq(s, i + 1, Len(s)), C)
StripAll(q) == [i \in 1..Len(q) |-> Strip(q[i])]
SkipSp(s, i) == IF i > Len(s) THEN i ELSE IF Ch(s, i) = " " THEN SkipSp(s, i + 1) ELSE i
\* words separated by blanks
Toks(s) == LET t == LStrip(s) i == Find(t, {" "}, 1)
           IN IF t = "" THEN <<>> ELSE IF i = 0 THEN <<t>> ELSE <<SubSeq(t, 1, i - 1)>> \o Toks(SubSeq(t, i, Len(t)))
Drop(s, n) == SubSeq(s, n + 1, Len(s))
Take(s, n) == SubSeq(s, 1, n)
\* a number as any of these files writes it
Num(t) == IF t \in {"nan", "NaN", "NAN"} THEN "fnan" ELSE IF t \in {"inf", "Infinity"} THEN "finf" ELSE IF t \in {"-inf", "-Infinity"} THEN "f-inf" ELSE FloatText(t)
Nums(q) == [i \in 1..Len(q) |-> Num(q[i])]
Special(v) == v \in {"fnan", "finf", "f-inf"}
Rnd(v, n) == IF v = None \/ Special(v) THEN v ELSE RoundSig(AsFloat(v), n)
Blank1(lines, i) == i > Len(lines) \/ IsBlank(lines[i])
AppendRow(steps, lab, row) == LET k == Len(steps) IN [steps EXCEPT ![k].labels = Append(@, lab), ![k].rows = Append(@, row)]
NewStep(t, names) == [t |-> t, labels |-> <<>>, names |-> names, rows |-> <<>>]

\* ---- what kind of file it is, from its first lines --------------------------------
Detect(lines) ==
   LET a == Strip(lines[1])
       b == IF Len(lines) > 1 THEN Strip(lines[2]) ELSE ""
       h == Strip(NoQ(Split(a, {","})[1]))
   IN IF a = "" THEN IF StartsWith(b, "@@@@@") THEN "tough" ELSE "none"
      ELSE IF StartsWith(a, "1      @@@@@") THEN "tough"
      ELSE IF StartsWith(a, "INCON") THEN "save"
      ELSE IF Find(a, {"="}, 1) # 0 THEN "tecplot"
      ELSE IF StartsWith(a, "TIME") THEN "petrasim"
      ELSE IF h = "ELEM" \/ h = "ELEM1" THEN "csv" ELSE "none"
DetectType(lines) == IF Detect(lines) = "csv" /\ Strip(NoQ(Split(Strip(lines[1]), {","})[1])) = "ELEM1" THEN "connection" ELSE "element"

\* ---- readers ----------------------------------------------------------------------
RECURSIVE CsvBody(_, _, _, _, _), PetBody(_, _, _, _), TecBody(_, _, _, _), TecRows(_, _, _)
CsvBody(lines, i, nl, names, steps) ==
   IF Blank1(lines, i) THEN steps
   ELSE LET q == StripAll(Split(NoQ(lines[i]), {","}))
        IN IF Len(q) = 1 THEN LET w == Toks(q[1]) IN CsvBody(lines, i + 1, nl, names, Append(steps, NewStep(Num(w[Len(w)]), names)))
           ELSE CsvBody(lines, i + 1, nl, names,
                   AppendRow(IF steps = <<>> THEN <<NewStep(None, names)>> ELSE steps, IF nl = 1 THEN q[1] ELSE Take(q, 2), Nums(Drop(q, nl))))
ParseCsv(lines) ==
   LET h == StripAll(Split(NoQ(lines[1]), {","})) ty == IF h[1] = "ELEM" THEN "element" ELSE "connection" nl == IF ty = "element" THEN 1 ELSE 2
   IN [ty |-> ty, steps |-> CsvBody(lines, 3, nl, Drop(h, nl), <<>>)]
\* rows of one time follow each other
PetBody(lines, i, names, steps) ==
   IF Blank1(lines, i) THEN steps
   ELSE LET q == StripAll(Split(lines[i], {","})) t == Num(q[1])
            s == IF steps # <<>> /\ steps[Len(steps)].t = t THEN steps ELSE Append(steps, NewStep(t, names))
        IN PetBody(lines, i + 1, names, AppendRow(s, q[2], Nums(Drop(q, 3))))
ParsePet(lines) == [ty |-> "element", steps |-> PetBody(lines, 2, Drop(StripAll(Split(lines[1], {","})), 3), <<>>)]
\* names of Tecplot variables: in quotes, or separated by blanks or commas
RECURSIVE TecNames(_), Under(_)
Under(s) == LET i == Find(s, {" "}, 1) IN IF i = 0 THEN s ELSE SubSeq(s, 1, i - 1) \o "_" \o Under(SubSeq(s, i + 1, Len(s)))
TecNames(s) ==
   IF s = "" THEN <<>>
   ELSE IF Ch(s, 1) \in {" ", ","} THEN TecNames(Drop(s, 1))
   ELSE IF Ch(s, 1) = Q THEN LET j == Find(s, {Q}, 2) IN <<Under(SubSeq(s, 2, j - 1))>> \o TecNames(SubSeq(s, j + 1, Len(s)))
   ELSE LET j == Find(s, {" ", ",", Q}, 1) IN IF j = 0 THEN <<s>> ELSE <<SubSeq(s, 1, j - 1)>> \o TecNames(SubSeq(s, j, Len(s)))
\* value of a key of a ZONE record: I = 3
RECURSIVE NumAfter(_, _, _), TitleTime(_)
NumAfter(s, k, i) == \* the key stands alone: preceded by a blank or a comma, followed by blanks and "="
   IF i > Len(s) THEN -1
   ELSE IF Ch(s, i) = k /\ i > 1 /\ Ch(s, i - 1) \in {" ", ","} /\ Ch(s, SkipSp(s, i + 1)) = "="
        THEN LET a == SkipSp(s, SkipSp(s, i + 1) + 1) b == Find(s, {" ", ","}, a) IN ToNat(SubSeq(s, a, IF b = 0 THEN Len(s) ELSE b - 1))
        ELSE NumAfter(s, k, i + 1)
TitleTime(z) == LET a == Find(z, {Q}, 1) IN IF a = 0 THEN None ELSE Num(Toks(SubSeq(z, a + 1, Find(z, {Q}, a + 1) - 1))[1])
NoTitle(z) == LET a == Find(z, {Q}, 1) IN IF a = 0 THEN z ELSE SubSeq(z, 1, a - 1) \o SubSeq(z, Find(z, {Q}, a + 1) + 1, Len(z))
TecRows(lines, i, n) == IF n = 0 THEN <<>> ELSE <<Nums(Toks(lines[i]))>> \o TecRows(lines, i + 1, n - 1)
TecBody(lines, i, names, steps) ==
   IF Blank1(lines, i) THEN steps
   ELSE LET n == NumAfter(NoTitle(lines[i]), "I", 1)
        IN TecBody(lines, i + 1 + n, names, Append(steps, [NewStep(TitleTime(lines[i]), names) EXCEPT !.rows = TecRows(lines, i + 1, n)]))
ParseTec(lines) == LET i == Find(lines[1], {"="}, 1)
                   IN [ty |-> "element", steps |-> TecBody(lines, 2, TecNames(Drop(lines[1], i)), <<>>)]
Parse(lines) == CASE Detect(lines) = "csv" -> ParseCsv(lines) [] Detect(lines) = "petrasim" -> ParsePet(lines) [] OTHER -> ParseTec(lines)

\* ---- what a table becomes when it is written --------------------------------------
TimeDigits(fmt) == CASE fmt = "csv" -> 9 [] fmt = "tecplot" -> 8 [] OTHER -> 13
Rounded(tab, fmt) ==
   [ty |-> tab.ty, steps |-> [i \in 1..Len(tab.steps) |-> LET s == tab.steps[i] IN
      [t |-> Rnd(s.t, TimeDigits(fmt)), labels |-> IF fmt = "tecplot" THEN <<>> ELSE s.labels,
       names |-> IF fmt = "tecplot" THEN [q \in 1..Len(s.names) |-> Under(s.names[q])] ELSE s.names,
       rows |-> [r \in 1..Len(s.rows) |-> [q \in 1..Len(s.rows[r]) |-> Rnd(s.rows[r][q], 13)]]]]]
\* the same results: variables are known by name, whatever the order of columns
Col(s, n) == LET q == CHOOSE q \in 1..Len(s.names) : s.names[q] = n IN [r \in 1..Len(s.rows) |-> s.rows[r][q]]
SameStep(a, b) ==
   If(a.t # b.t, "time") \cup If(a.labels # b.labels, "labels")
   \cup (IF SetOf(a.names) # SetOf(b.names) \/ Len(a.names) # Len(b.names) THEN {"variables"}
         ELSE IF Len(a.rows) # Len(b.rows) THEN {"rows"}
         ELSE IF \E r \in 1..Len(a.rows) : Len(a.rows[r]) # Len(a.names) \/ Len(b.rows[r]) # Len(b.names) THEN {"ragged_rows"}
         ELSE If(\E n \in SetOf(a.names) : Col(a, n) # Col(b, n), "values"))
SameTab(a, b) ==
   If(a.ty # b.ty, "type")
   \cup (IF Len(a.steps) # Len(b.steps) THEN {"number_of_steps"}
         ELSE UNION {SameStep(a.steps[i], b.steps[i]) : i \in 1..Len(a.steps)})
\* rows in the order of labels asked for
Reorder(tab, ord) ==
   [tab EXCEPT !.steps = [i \in 1..Len(@) |-> LET s == tab.steps[i]
        at == TLCEval([k \in 1..Len(ord) |-> CHOOSE r \in 1..Len(s.labels) : s.labels[r] = ord[k]])
     IN [s EXCEPT !.labels = ord, !.rows = [k \in 1..Len(ord) |-> s.rows[at[k]]]]]]
CanOrder(tab, ord) == \A i \in 1..Len(tab.steps) : LET s == tab.steps[i] IN Len(s.labels) = Len(ord) /\ SetOf(s.labels) = SetOf(ord)

\* ---- writers of the same files as other programs lay them out ---------------------
\* style: q quotes (1/0), w width of columns, c "e" or "E", sep separator of names
RECURSIVE Glue(_, _), UpE(_)
Glue(q, sep) == IF q = <<>> THEN "" ELSE IF Len(q) = 1 THEN q[1] ELSE q[1] \o sep \o Glue(Tail(q), sep)
\* Fortran: an exponent of three digits takes the place of the letter
UpE(s) == LET i == Find(s, {"e"}, 1) IN
          IF i = 0 THEN s ELSE SubSeq(s, 1, i - 1) \o (IF Len(s) - i = 4 THEN "" ELSE "E") \o SubSeq(s, i + 1, Len(s))
NumText(v, st) == LET x == IF v = "fnan" THEN "nan" ELSE RenderE(v, IF Len(FDigs(v)) < 5 THEN 4 ELSE Len(FDigs(v)) - 1) IN PadL(IF st.c = "E" THEN UpE(x) ELSE x, st.w)
Quoted(s, st) == IF st.q = 1 THEN Q \o PadL(s, st.w) \o Q ELSE PadL(s, st.w)
NumRow(row, st) == [q \in 1..Len(row) |-> NumText(row[q], st)]
RECURSIVE Cat2(_, _, _)
Cat2(tab, f(_, _), i) == IF i > Len(tab.steps) THEN <<>> ELSE f(tab.steps[i], i) \o Cat2(tab, f, i + 1)
WriteCsv(tab, st) ==
   LET s == tab.steps[1]
       k == IF tab.ty = "element" THEN <<"ELEM">> ELSE <<"ELEM1", "ELEM2">>
       h == k \o s.names
       line(a, q) == Glue((IF tab.ty = "element" THEN <<Quoted(a, st)>> ELSE <<Quoted(a[1], st), Quoted(a[2], st)>>) \o NumRow(q, st), ",")
       f(x, i) == (IF x.t = None THEN <<>> ELSE <<Q \o "TIME [sec]  " \o Strip(NumText(x.t, st)) \o Q>>) \o [r \in 1..Len(x.rows) |-> line(x.labels[r], x.rows[r])]
   IN <<Glue([i \in 1..Len(h) |-> Quoted(h[i], st)], ","), Glue([i \in 1..Len(h) |-> Quoted("(-)", st)], ",")>> \o Cat2(tab, f, 1)
WritePet(tab, st) ==
   LET h == <<"TIME [sec]", "ELEM", "INDEX">> \o tab.steps[1].names
       f(x, i) == [r \in 1..Len(x.rows) |-> Glue(<<NumText(x.t, st), PadL(x.labels[r], st.w), PadL(ToString(r), 4)>> \o NumRow(x.rows[r], st), ",")]
   IN <<Glue(h, IF st.q = 1 THEN ", " ELSE ",")>> \o Cat2(tab, f, 1)
WriteTec(tab, st) ==
   LET s == tab.steps[1]
       nm == [i \in 1..Len(s.names) |-> IF st.q = 1 \/ Find(s.names[i], {" "}, 1) # 0 THEN Q \o s.names[i] \o Q ELSE s.names[i]]
       ii(n) == IF st.q = 1 THEN "I=" \o ToString(n) ELSE "I = " \o PadL(ToString(n), 6)
       tt(t) == IF t = None THEN "" ELSE "T=" \o Q \o NumText(t, st) \o " SEC" \o Q
       z(x) == IF st.c = "E" THEN " ZONE " \o tt(x.t) \o "  " \o ii(Len(x.rows)) ELSE "ZONE " \o ii(Len(x.rows)) \o ", F=POINT, " \o tt(x.t)
       f(x, i) == <<z(x)>> \o [r \in 1..Len(x.rows) |-> "  " \o Glue(NumRow(x.rows[r], st), "  ")]
   IN <<" VARIABLES " \o (IF st.q = 1 THEN "= " ELSE "=   ") \o Glue(nm, IF st.q = 1 THEN ", " ELSE "  ")>> \o Cat2(tab, f, 1)
WriteAs(tab, fmt, st) == CASE fmt = "csv" -> WriteCsv(tab, st) [] fmt = "petrasim" -> WritePet(tab, st) [] OTHER -> WriteTec(tab, st)
\* what a format can hold
Holds(tab, fmt) ==
   LET names == tab.steps[1].names IN
   /\ fmt # "csv" => tab.ty = "element"
   /\ fmt = "tecplot" => {"X", "Y"} \subseteq SetOf(names)
   /\ fmt # "tecplot" => \A i \in 1..Len(tab.steps) : (tab.steps[i].t = None => fmt = "csv" /\ Len(tab.steps) = 1)
=============================================================================
