-------------------------------- MODULE MeshRead --------------------------------
(***************************************************************************)
(* Mesh files as their formats define them, whoever wrote them: Tecplot    *)
(* finite-element zones, AVS-UCD, FLAC3D grids (text).  A file is a        *)
(* sequence of lines, a mesh is                                            *)
(*   [pts, cells, cd, pd, mats]                                            *)
(* points (sequences of canonical numbers), cells [t, n] with nodes from   *)
(* 0, data by name, and the group of every cell (<<>> when the file has    *)
(* no groups, "" for a cell in no group).                                  *)
(***************************************************************************)
EXTENDS Tables
MF == INSTANCE MeshFmt
Lower == "abcdefghijklmnopqrstuvwxyz"
Upper == "ABCDEFGHIJKLMNOPQRSTUVWXYZ"
UpOf == [c \in {Ch(Lower, i) : i \in 1..26} |-> LET i == CHOOSE i \in 1..26 : Ch(Lower, i) = c IN Ch(Upper, i)]
RECURSIVE Up(_), Join(_)
Up(s) == IF s = "" THEN "" ELSE (IF Ch(s, 1) \in DOMAIN UpOf THEN UpOf[Ch(s, 1)] ELSE Ch(s, 1)) \o Up(Drop(s, 1))
Join(q) == IF q = <<>> THEN <<>> ELSE q[1] \o Join(Tail(q))
\* cut a sequence in rows of w from place i on, n of them
Rows(q, w, n) == [r \in 1..n |-> SubSeq(q, (r - 1) * w + 1, r * w)]
\* the same, all columns as one sequence
Column(q, a, n) == [r \in 1..n |-> <<q[a + r]>>]
First(s) == LET t == Toks(s) IN IF t = <<>> THEN "" ELSE t[1]
IsNumber(w) == Num(w) # "BAD"
NoRemark(s) == Strip(s) = "" \/ Ch(Strip(s), 1) # "#"
Empty == [x \in {} |-> x]

\* ---- Tecplot -------------------------------------------------------------------
Sections == {"TITLE", "VARIABLES", "ZONE", "FILETYPE"}
\* a record: its keyword, its text (continuation lines joined), and where the next begins
RECURSIVE TextOf(_, _), EndOf(_, _), Words(_)
EndOf(lines, i) == \* first line after i that does not continue the record
   IF i > Len(lines) THEN i
   ELSE LET w == First(Glue(Split(lines[i], {"=", ","}), " ")) IN
        IF w # "" /\ (Up(w) \in Sections \/ IsNumber(w)) THEN i ELSE EndOf(lines, i + 1)
TextOf(lines, i) == LET j == EndOf(lines, i + 1) IN Glue(SubSeq(lines, i, j - 1), " ")
\* words of a record: quoted ones, lists in brackets, "=" and plain ones
Words(s) ==
   IF s = "" THEN <<>>
   ELSE LET c == Ch(s, 1)
            to(C, k) == LET j == Find(s, C, 2) IN IF j = 0 THEN Len(s) + 1 ELSE j + k
        IN CASE c \in {" ", ","} -> Words(Drop(s, 1))
             [] c = "=" -> <<[k |-> "eq", v |-> "="]>> \o Words(Drop(s, 1))
             [] c = Q -> <<[k |-> "text", v |-> SubSeq(s, 2, to({Q}, 0) - 1)]>> \o Words(SubSeq(s, to({Q}, 1), Len(s)))
             [] c = "(" -> <<[k |-> "list", v |-> SubSeq(s, 2, to({")"}, 0) - 1)]>> \o Words(SubSeq(s, to({")"}, 1), Len(s)))
             [] OTHER -> LET j == Find(s, {" ", ",", "=", Q, "("}, 2) IN
                 IF j = 0 THEN <<[k |-> "word", v |-> s]>> ELSE <<[k |-> "word", v |-> SubSeq(s, 1, j - 1)]>> \o Words(SubSeq(s, j, Len(s)))
RECURSIVE Entries(_)
Entries(w) == IF Len(w) < 3 THEN Empty
              ELSE IF w[2].k = "eq" THEN Overlay([x \in {Up(w[1].v)} |-> w[3].v], Entries(Drop(w, 3)))
              ELSE Entries(Tail(w))
\* which variables are given cell by cell
RECURSIVE CellVars(_), Ranges(_)
Ranges(q) == IF q = <<>> THEN {} ELSE LET r == StripAll(Split(q[1], {"-"})) IN (ToNat(r[1])..ToNat(r[Len(r)])) \cup Ranges(Tail(q))
CellVars(s) == \* [4-6]=CELLCENTERED, [1,2]=NODAL
   LET a == Find(s, {"["}, 1) b == Find(s, {"]"}, 1) IN
   IF a = 0 THEN {}
   ELSE LET e == Find(s, {"="}, b) n == Find(s, {"["}, e) v == Strip(Split(SubSeq(s, e + 1, IF n = 0 THEN Len(s) ELSE n - 1), {","})[1])
        IN (IF Up(v) = "CELLCENTERED" THEN Ranges(Split(SubSeq(s, a + 1, b - 1), {","})) ELSE {}) \cup (IF n = 0 THEN {} ELSE CellVars(SubSeq(s, n, Len(s))))
Centered(s) == IF Find(s, {"["}, 1) # 0 THEN CellVars(s)
               ELSE LET q == Toks(Glue(Split(s, {","}), " ")) IN {i \in 1..Len(q) : Up(q[i]) = "CELLCENTERED"}
TecShape == [FETRIANGLE |-> "triangle", TRIANGLE |-> "triangle", FEQUADRILATERAL |-> "quad", QUADRILATERAL |-> "quad",
             FETETRAHEDRON |-> "tetra", TETRAHEDRON |-> "tetra", FEBRICK |-> "hexahedron", BRICK |-> "hexahedron"]
NNodes == [triangle |-> 3, quad |-> 4, tetra |-> 4, hexahedron |-> 8, pyramid |-> 5, wedge |-> 6, line |-> 2, vertex |-> 1]
RECURSIVE At(_, _, _)
At(lines, k, i) == IF i > Len(lines) THEN 0 ELSE IF Up(First(Glue(Split(lines[i], {"="}), " "))) = k THEN i ELSE At(lines, k, i + 1)
TecParse(all) ==
   LET lines == SelectSeq(all, NoRemark)
       iv == At(lines, "VARIABLES", 1)
       iz == At(lines, "ZONE", 1)
       vars == LET w == Words(TextOf(lines, iv)) IN [i \in 1..(Len(w) - 2) |-> Under(w[i + 2].v)]
       z == Entries(Tail(Words(TextOf(lines, iz))))
       body == EndOf(lines, iz + 1)
       v == Nums(Join([i \in 1..(Len(lines) - body + 1) |-> Toks(lines[body + i - 1])]))
       n == ToNat(IF "N" \in DOMAIN z THEN z["N"] ELSE z["NODES"])
       e == ToNat(IF "E" \in DOMAIN z THEN z["E"] ELSE z["ELEMENTS"])
       shape == TecShape[Up(IF "F" \in DOMAIN z THEN z["ET"] ELSE z["ZONETYPE"])]
       block == IF "F" \in DOMAIN z THEN Up(z["F"]) = "FEBLOCK" ELSE Up(z["DATAPACKING"]) = "BLOCK"
       nv == Len(vars)
       cc == IF ~block THEN {} ELSE IF "NV" \in DOMAIN z THEN {i \in 1..nv : i > ToNat(z["NV"])}
             ELSE IF "VARLOCATION" \in DOMAIN z THEN Centered(z["VARLOCATION"]) ELSE {}
       size(i) == IF i \in cc THEN e ELSE n
       RECURSIVE start(_)
       start(i) == IF i = 1 THEN 0 ELSE start(i - 1) + size(i - 1)
       col(i) == IF block THEN Column(v, start(i), size(i)) ELSE [r \in 1..n |-> <<v[(r - 1) * nv + i]>>]
       used == IF block THEN start(nv) + size(nv) ELSE nv * n
       named(k) == {i \in 1..nv : Up(vars[i]) = k}
       xyz == SelectSeq(<<"X", "Y", "Z">>, LAMBDA k : named(k) # {})
       ax == [k \in 1..Len(xyz) |-> CHOOSE i \in named(xyz[k]) : TRUE]
       pd == {i \in (1..nv) \ cc : ~\E k \in 1..Len(ax) : ax[k] = i}
       pick(S) == [x \in {vars[i] : i \in S} |-> col(CHOOSE i \in S : vars[i] = x)]
       w == NNodes[shape]
       nodes == [k \in 1..(w * e) |-> ToNat(FDigs(v[used + k]) \o Rep("0", FExp(v[used + k]))) - 1]
   IN TLCEval([pts |-> [r \in 1..n |-> [k \in 1..Len(ax) |-> col(ax[k])[r][1]]],
       cells |-> LET q == Rows(nodes, w, e) IN [r \in 1..e |-> [t |-> shape, n |-> q[r]]],
       cd |-> pick(cc), pd |-> pick(pd), mats |-> <<>>])

\* ---- AVS-UCD ---------------------------------------------------------------------
AvsShape == [pt |-> "vertex", line |-> "line", tri |-> "triangle", quad |-> "quad", tet |-> "tetra", pyr |-> "pyramid", prism |-> "wedge", hex |-> "hexahedron"]
\* the AVS order of the nodes (top first), as places in the cell
AvsBack == [t \in DOMAIN MF!AvsOrder |-> LET o == MF!AvsOrder[t] IN [k \in 1..Len(o) |-> (CHOOSE j \in 1..Len(o) : o[j] = k - 1) - 1]]
\* tables of data: line i holds the sizes, then a line per name, then a line per entity
AvsData(lines, i, ids) ==
   LET sz == LET t == Toks(lines[i]) IN [k \in 1..(Len(t) - 1) |-> ToNat(t[k + 1])]
       m == Len(sz)
       nm == [k \in 1..m |-> Under(Strip(Split(lines[i + k], {","})[1]))]
       RECURSIVE off(_)
       off(k) == IF k = 1 THEN 1 ELSE off(k - 1) + sz[k - 1]
       row == TLCEval([r \in 1..Len(ids) |-> Toks(lines[i + m + r])])
       of == TLCEval([id \in SetOf(ids) |-> CHOOSE r \in 1..Len(ids) : row[r][1] = id])
   IN [x \in SetOf(nm) |-> LET k == CHOOSE k \in 1..m : nm[k] = x IN
         [j \in 1..Len(ids) |-> [q \in 1..sz[k] |-> Num(row[of[ids[j]]][off(k) + q])]]]
AvsParse(all) ==
   LET lines == SelectSeq(all, NoRemark)
       h == Toks(lines[1])
       n == ToNat(h[1]) e == ToNat(h[2])
       pid == TLCEval([r \in 1..n |-> Toks(lines[1 + r])[1]])
       at == TLCEval([id \in SetOf(pid) |-> (CHOOSE r \in 1..n : pid[r] = id) - 1])
       cr == TLCEval([r \in 1..e |-> Toks(lines[1 + n + r])])
       cid == [r \in 1..e |-> cr[r][1]]
       i == 2 + n + e
       pd == IF ToNat(h[3]) = 0 THEN Empty ELSE AvsData(lines, i, pid)
       j == IF ToNat(h[3]) = 0 THEN i ELSE i + ToNat(Toks(lines[i])[1]) + 1 + n
       cd == IF ToNat(h[4]) = 0 THEN Empty ELSE AvsData(lines, j, cid)
   IN TLCEval([pts |-> [r \in 1..n |-> Nums(SubSeq(Toks(lines[1 + r]), 2, 4))],
       cells |-> [r \in 1..e |-> LET t == AvsShape[cr[r][3]] IN
           [t |-> t, n |-> MF!Perm([k \in 1..(Len(cr[r]) - 3) |-> at[cr[r][k + 3]]], AvsBack[t])]],
       cd |-> Overlay([x \in {"material"} |-> [r \in 1..e |-> <<Num(cr[r][2])>>]], cd), pd |-> pd, mats |-> <<>>])

\* ---- FLAC3D ----------------------------------------------------------------------
\* groups: [zone, name, slot, ids]; the ids follow on lines of their own
RECURSIVE FlacGroups(_, _), FlacIds(_, _)
FlacIds(lines, i) == IF i > Len(lines) \/ Toks(lines[i]) = <<>> THEN <<>>
                     ELSE IF AllDigits(First(lines[i])) THEN Toks(lines[i]) \o FlacIds(lines, i + 1) ELSE <<>>
FlacGroups(lines, i) ==
   IF i > Len(lines) THEN <<>>
   ELSE IF First(lines[i]) \in {"ZGROUP", "FGROUP"}
        THEN LET w == Words(lines[i]) IN
             <<[zone |-> w[1].v = "ZGROUP", name |-> w[2].v, slot |-> IF Len(w) > 3 THEN w[4].v ELSE "", ids |-> SetOf(FlacIds(lines, i + 1))]>> \o FlacGroups(lines, i + 1)
        ELSE FlacGroups(lines, i + 1)
FlacShape == [T4 |-> "tetra", P5 |-> "pyramid", W6 |-> "wedge", B8 |-> "hexahedron", B7 |-> "hexahedron", T3 |-> "triangle", Q4 |-> "quad"]
FlacParse(all) ==
   LET lines == SelectSeq(all, LAMBDA s : Toks(s) # <<>>)
       g == TLCEval(LET q == SelectSeq(lines, LAMBDA s : First(s) = "G") IN [r \in 1..Len(q) |-> Toks(q[r])])
       at == TLCEval([id \in {g[r][2] : r \in 1..Len(g)} |-> (CHOOSE r \in 1..Len(g) : g[r][2] = id) - 1])
       c == TLCEval(LET q == SelectSeq(lines, LAMBDA s : First(s) \in {"Z", "F"}) IN [r \in 1..Len(q) |-> Toks(q[r])])
       gr == TLCEval(FlacGroups(lines, 1))
       nodes(w) == LET q == [k \in 1..(Len(w) - 3) |-> at[w[k + 3]]] IN IF w[2] = "B7" THEN Append(q, q[7]) ELSE q
       of(w) == {k \in 1..Len(gr) : gr[k].zone = (w[1] = "Z") /\ w[3] \in gr[k].ids}
   IN TLCEval([pts |-> [r \in 1..Len(g) |-> Nums(SubSeq(g[r], 3, 5))],
       cells |-> [r \in 1..Len(c) |-> LET t == FlacShape[c[r][2]] IN [t |-> t, n |-> MF!Perm(nodes(c[r]), MF!FlacBack[t])]],
       cd |-> Empty, pd |-> Empty,
       mats |-> IF gr = <<>> THEN <<>> ELSE [r \in 1..Len(c) |-> LET s == of(c[r]) IN IF s = {} THEN "" ELSE gr[CHOOSE k \in s : TRUE].name]])
\* several slots, a cell in several groups: not a partition in materials
FlacOdd(all) ==
   LET lines == SelectSeq(all, LAMBDA s : Toks(s) # <<>>) gr == TLCEval(FlacGroups(lines, 1)) IN
   \E i, j \in 1..Len(gr) : gr[i].zone = gr[j].zone /\ (gr[i].slot # gr[j].slot \/ (i # j /\ gr[i].ids \cap gr[j].ids # {}))

MeshOf(fmt, lines) == CASE fmt = "tecplot" -> TecParse(lines) [] fmt = "avsucd" -> AvsParse(lines) [] OTHER -> FlacParse(lines)
\* ---- what was read (N, as in MeshFmt) against what the file says (m) ----------------
AsNum(v) == MF!Num(v)
SameArr(a, b) == Len(a) = Len(b) /\ \A r \in 1..Len(a) : Len(a[r]) = Len(b[r]) /\ \A q \in 1..Len(a[r]) : AsNum(a[r][q]) = AsNum(b[r][q])
SameData(a, b, skip, k) ==
   If(DOMAIN a # DOMAIN b \ skip, k \o "_names") \cup If(\E x \in DOMAIN a \cap DOMAIN b : ~SameArr(a[x], b[x]), k)
Agrees(m, N) ==
   LET fl == TLCEval(MF!Flat(N)) IN
   If(~SameArr(m.pts, N.pts), "points")
   \cup (IF Len(fl) # Len(m.cells) THEN {"number_of_cells"}
         ELSE If(\E j \in 1..Len(fl) : fl[j].t # m.cells[j].t \/ fl[j].n # m.cells[j].n, "cells"))
   \cup SameData(m.pd, N.pd, {}, "point_data")
   \cup SameData(m.cd, N.cd, IF m.mats = <<>> THEN {} ELSE {"material"}, "cell_data")
   \cup (IF m.mats = <<>> THEN {}
         ELSE IF "material" \notin DOMAIN N.cd \/ Len(Get(N.cd, "material", <<>>)) # Len(m.mats) THEN {"groups"}
         ELSE LET id == TLCEval([j \in 1..Len(m.mats) |-> N.cd["material"][j][1]])
                  of(g) == "i" \o ToString(N.fd[g]) IN
              If(\E j \in 1..Len(m.mats) : IF m.mats[j] = "" THEN \E g \in DOMAIN N.fd : of(g) = id[j]
                                             ELSE m.mats[j] \notin DOMAIN N.fd \/ of(m.mats[j]) # id[j], "groups")
              \cup If("" \notin SetOf(m.mats) /\ N.mats # [j \in 1..Len(m.mats) |-> "s" \o m.mats[j]], "materials"))
=============================================================================
