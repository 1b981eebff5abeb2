-------------------------------- MODULE Listing --------------------------------
(***************************************************************************)
(* The main listing of a TOUGH run, SAVE files and history files.          *)
(* A listing is a sequence of lines.  Every printed time step has a line   *)
(* TOTAL TIME ..., the values of that line on the next one, then a table   *)
(* of elements (heading ELEM.) up to a line of @, perhaps a table of       *)
(* connections (heading ELEM1) and further tables of elements.  Tables are *)
(* broken into pages: headings, units and blank lines come again.          *)
(***************************************************************************)
EXTENDS Tables

\* ---- reading ----------------------------------------------------------------------
\* a negative number and a field full of asterisks may touch the column on their left:
\* 0.1000E+06-0.2000E+02, NaN-0.2000E+02, 0.1000E+06************-0.2000E+02
RECURSIVE SkipDig(_, _), Sep(_, _)
SkipDig(s, i) == IF i > Len(s) THEN i ELSE IF Ch(s, i) \in Digits THEN SkipDig(s, i + 1) ELSE i
Cut(s, i) == i > 1 /\ Ch(s, i - 1) # " " /\
   \/ Ch(s, i) = "*" /\ Ch(s, i - 1) # "*"
   \/ Ch(s, i) \in {"-", "+"} /\ LET j == SkipDig(s, i + 1) IN j <= Len(s) /\ Ch(s, j) = "."
Sep(s, i) == LET j == Find(s, {"-", "+", "*"}, i) IN
   IF j = 0 THEN s
   ELSE IF Cut(s, j) THEN Sep(SubSeq(s, 1, j - 1) \o " " \o SubSeq(s, j, Len(s)), j + 2)
   ELSE Sep(s, j + 1)
Cell(t) == LET x == IF Ch(t, 1) = "*" THEN "fnan" ELSE Num(t) IN IF x = "BAD" THEN "fnan" ELSE x
RowOf(line, ty, L) ==
   LET s == LStrip(line)
       n == IF ty = "element" THEN L ELSE 2 * L + 2
       q == Toks(Sep(SubSeq(s, n + 1, Len(s)), 1))
   IN [lab |-> IF ty = "element" THEN SubSeq(s, 1, L) ELSE <<SubSeq(s, 1, L), SubSeq(s, L + 3, 2 * L + 2)>>,
       row |-> [i \in 1..(Len(q) - 1) |-> Cell(q[i + 1])]]
Key(ty) == IF ty = "element" THEN "ELEM." ELSE "ELEM1"
\* mode: 0 look for a time, 1 look for the heading of the table, 2 rows of the table
RECURSIVE Scan(_, _, _, _, _, _)
Scan(lines, i, mode, ty, L, steps) ==
   IF i > Len(lines) THEN [ok |-> mode = 0, steps |-> steps]
   ELSE LET s == Strip(lines[i]) IN
      IF mode = 0 THEN IF StartsWith(s, "TOTAL TIME") /\ i < Len(lines)
                       THEN Scan(lines, i + 2, 1, ty, L, Append(steps, NewStep(Num(Toks(lines[i + 1])[1]), <<>>)))
                       ELSE Scan(lines, i + 1, 0, ty, L, steps)
      ELSE IF mode = 1 THEN IF StartsWith(s, Key(ty))
                            THEN Scan(lines, i + 1, 2, ty, L, [steps EXCEPT ![Len(steps)].names = Drop(Toks(s), IF ty = "element" THEN 2 ELSE 3)])
                            ELSE Scan(lines, i + 1, 1, ty, L, steps)
      ELSE IF StartsWith(Drop(lines[i], 1), "@@@@@") THEN Scan(lines, i + 1, 0, ty, L, steps)
      ELSE IF IsBlank(Take(lines[i], MinOf(10, Len(lines[i])))) \/ StartsWith(s, "ELEM") THEN Scan(lines, i + 1, 2, ty, L, steps)
      ELSE LET r == TLCEval(RowOf(lines[i], ty, L)) IN Scan(lines, i + 1, 2, ty, L, AppendRow(steps, r.lab, r.row))
ParseListing(lines, ty, L) == Scan(lines, 1, 0, ty, L, <<>>)

\* ---- writing ----------------------------------------------------------------------
\* 0.dddE+xx in a field of w columns, d digits
FortE(v, d, w) ==
   IF Special(v) THEN PadL(IF v = "fnan" THEN "NaN" ELSE "Infinity", w)
   ELSE LET g == FDigs(v) \o Rep("0", d - Len(FDigs(v)))
            e == IF v = "f0E0" THEN 0 ELSE FExp(v) + Len(FDigs(v))
            a == IF e < 0 THEN -e ELSE e
            x == IF e < 0 THEN "-" ELSE "+"
        IN PadL(FSign(v) \o "0." \o (IF v = "f0E0" THEN Rep("0", d) ELSE g) \o (IF a > 99 THEN x \o ToString(a) ELSE "E" \o x \o (IF a < 10 THEN "0" ELSE "") \o ToString(a)), w)
RECURSIVE Join(_)
Join(q) == IF q = <<>> THEN "" ELSE q[1] \o Join(Tail(q))
\* lay: start, ind (indentation), page (rows per page, 0 none), units, iw (width of the index), d (digits), gap (blanks before a number)
Heading(names, ty, lay) ==
   <<"", Rep(" ", lay.ind) \o (IF ty = "element" THEN "ELEM.  INDEX" ELSE "ELEM1  ELEM2  INDEX") \o Join([i \in 1..Len(names) |-> PadL(names[i], lay.d + 9)])>>
   \o (IF lay.units = 1 THEN <<Rep(" ", 26) \o "(PA)         (DEG-C)">> ELSE <<>>) \o <<"">>
TRow(s, r, ty, lay) ==
   Rep(" ", lay.ind) \o (IF ty = "element" THEN s.labels[r] ELSE s.labels[r][1] \o "  " \o s.labels[r][2])
   \o PadL(ToString(r), lay.iw) \o Join([q \in 1..Len(s.names) |-> FortE(s.rows[r][q], lay.d, lay.d + 7 + lay.gap)])
RECURSIVE Rows(_, _, _, _)
Rows(s, r, ty, lay) ==
   IF r > Len(s.rows) THEN <<>>
   ELSE (IF lay.page > 0 /\ r > 1 /\ (r - 1) % lay.page = 0 THEN <<"">> \o Heading(s.names, ty, lay) ELSE <<>>) \o <<TRow(s, r, ty, lay)>> \o Rows(s, r + 1, ty, lay)
At == " " \o Rep("@", 40)
TableText(s, ty, lay) == Heading(s.names, ty, lay) \o Rows(s, 1, ty, lay) \o <<At>>
RECURSIVE Printed(_, _, _, _)
Printed(elem, conn, i, lay) ==
   IF i > Len(elem) THEN <<>>
   ELSE <<"", At, "", "   TOTAL TIME     KCYC   ITER", "   " \o FortE(elem[i].t, 5, 0) \o "       1      3", At>>
        \o TableText(elem[i], "element", lay)
        \o (IF conn = <<>> THEN <<>> ELSE <<"">> \o TableText(conn[i], "connection", lay))
        \o (IF lay.more = 1 THEN TableText([elem[i] EXCEPT !.names = [q \in 1..Len(@) |-> "D" \o @[q]]], "element", lay) ELSE <<>>)
        \o Printed(elem, conn, i + 1, lay)
WriteListing(elem, conn, lay) ==
   (IF lay.start = "one" THEN <<"1      @@@@@@@@@@@@@@@@@@">> ELSE <<"", At>>) \o <<"  PROBLEM TITLE", "", " ...ITERATING...">> \o Printed(elem, conn, 1, lay)

\* ---- SAVE files -------------------------------------------------------------------
\* element: [label, por, userx, values]; n primary variables, four on a line
SaveElem(lines, i, L, nv) ==
   LET r == Rec(lines[i], INCON1(L))
   IN [label |-> r["label"], por |-> r["porosity"], userx |-> TrimNone(<<r["u1"], r["u2"], r["u3"], r["u4"], r["u5"]>>),
       values |-> TrimNone(RecSeq(lines[i + 1], VAR4) \o (IF nv > 4 THEN RecSeq(lines[i + 2], VAR4) ELSE <<>>))]
RECURSIVE SaveBody(_, _, _, _)
SaveBody(lines, i, L, nv) ==
   IF Blank1(lines, i) \/ StartsWith(lines[i], "+++") THEN <<>>
   ELSE <<SaveElem(lines, i, L, nv)>> \o SaveBody(lines, i + (IF nv > 4 THEN 3 ELSE 2), L, nv)
ParseSave(lines, L, nv) == SaveBody(lines, 2, L, nv)
\* the output: variables X1.., porosity and userx when some element has them
PadNan(q, n) == [i \in 1..n |-> IF i > Len(q) THEN "fnan" ELSE IF q[i] = None THEN "fnan" ELSE q[i]]
SaveData(els, nv) ==
   LET m == Len(els)
       mx == LET S == {Len(els[i].userx) : i \in 1..m} IN CHOOSE x \in S : \A y \in S : y <= x
   IN [k \in {"X" \o ToString(i) : i \in 1..nv} \cup If(\E i \in 1..m : els[i].por # None, "porosity") \cup If(mx > 0, "userx") |->
         IF k = "porosity" THEN [i \in 1..m |-> <<IF els[i].por = None THEN "fnan" ELSE els[i].por>>]
         ELSE IF k = "userx" THEN [i \in 1..m |-> PadNan(els[i].userx, mx)]
         ELSE [i \in 1..m |-> <<els[i].values[ToNat(Drop(k, 1))]>>]]
SaveOrder(els, ord) == [k \in 1..Len(ord) |-> els[CHOOSE i \in 1..Len(els) : els[i].label = "s" \o ord[k]]]

\* ---- history files ----------------------------------------------------------------
\* columns of numbers under their names; the first column is the time
RECURSIVE HistRows(_, _, _)
HistRows(lines, i, csv) == IF Blank1(lines, i) THEN <<>>
                           ELSE <<Nums(IF csv THEN StripAll(Split(lines[i], {","})) ELSE Toks(lines[i]))>> \o HistRows(lines, i + 1, csv)
ParseHistory(lines) ==
   LET csv == StartsWith(Strip(lines[1]), Q)
       h == IF csv THEN StripAll(Split(NoQ(Strip(lines[1])), {","})) ELSE Toks(lines[1])
       rows == HistRows(lines, 2, csv)
   IN [k \in {"TIME"} \cup {h[i] : i \in 2..Len(h)} |->
         LET q == IF k = "TIME" THEN 1 ELSE CHOOSE i \in 2..Len(h) : h[i] = k IN [r \in 1..Len(rows) |-> rows[r][q]]]
=============================================================================
