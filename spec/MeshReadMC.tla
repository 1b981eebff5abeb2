------------------------------- MODULE MeshReadMC -------------------------------
(* Small meshes written in each format in every style, then read by the format's *)
(* definition.                                                                    *)
EXTENDS MeshRead, Json
CONSTANTS NCells, NData, Emit
VARIABLES mesh, fmt, st
vars == <<mesh, fmt, st>>
Vals == <<"f1E0", "f-25E-1", "f0E0", "f123456789E-300", "f7E100", "f-33E2", "f5E-5">>
Val(i) == Vals[(i % Len(Vals)) + 1]
Types(f) == CASE f = "tecplot" -> {"triangle", "quad", "tetra", "hexahedron"}
              [] f = "avsucd" -> {"vertex", "line", "triangle", "quad", "tetra", "pyramid", "wedge", "hexahedron"}
              [] OTHER -> {"triangle", "quad", "tetra", "pyramid", "wedge", "hexahedron"}
\* cells in a row, each on the points after the first of the one before
RECURSIVE Chain(_, _)
Chain(ts, a) == IF ts = <<>> THEN <<>> ELSE <<[t |-> ts[1], n |-> [k \in 1..NNodes[ts[1]] |-> a + NNodes[ts[1]] - k]]>> \o Chain(Tail(ts), a + NNodes[ts[1]] - 1)
NPts(cs) == 1 + (CHOOSE m \in 0..40 : (\E c \in SetOf(cs) : \E k \in 1..Len(c.n) : c.n[k] = m) /\ \A c \in SetOf(cs) : \A k \in 1..Len(c.n) : c.n[k] <= m)
Arr(n, w, o) == [r \in 1..n |-> [q \in 1..w |-> Val(r * 3 + q + o)]]
GroupNames == <<"rock", "cap 2">>
\* k: number of cell arrays, j: number of point arrays, w: components, g: groups
Make(f, cs, d, k, j, w, g) ==
   LET n == NPts(cs) e == Len(cs) ww == IF f = "avsucd" THEN w ELSE 1 IN
   [pts |-> [r \in 1..n |-> [q \in 1..d |-> Val(r + 2 * q)]], cells |-> cs,
    cd |-> IF f = "flac3d" THEN Empty ELSE Overlay(IF f = "avsucd" THEN [x \in {"material"} |-> [r \in 1..e |-> <<IF r % 2 = 0 THEN "f0E0" ELSE "f17E0">>]] ELSE Empty,
              [x \in {"P_gas", "T"} \cap SetOf(SubSeq(<<"P_gas", "T">>, 1, k)) |-> Arr(e, IF x = "T" THEN ww ELSE 1, Len(x))]),
    pd |-> IF f = "flac3d" THEN Empty ELSE [x \in SetOf(SubSeq(<<"T", "u">>, 1, j)) |-> Arr(n, IF x = "T" THEN 1 ELSE ww, 5)],
    mats |-> IF f # "flac3d" \/ g = 0 THEN <<>> ELSE [r \in 1..e |-> IF g = 2 /\ r = e THEN "" ELSE GroupNames[((r - 1) % 2) + 1]]]
\* ids as the file numbers things: by style 1, 2, .. or anything else
Id(i, s) == ToString(IF s.id = 0 THEN i ELSE 4 * i + 3)
Txt(v) == IF Len(FDigs(v)) = 1 /\ FExp(v) = 0 THEN FSign(v) \o FDigs(v) ELSE RenderE(v, Len(FDigs(v)) + 1)
TxtRow(q) == Glue([k \in 1..Len(q) |-> Txt(q[k])], "  ")
Rev(q) == [k \in 1..Len(q) |-> q[Len(q) + 1 - k]]
RECURSIVE Wrap(_, _), SeqOf(_)
Wrap(q, w) == IF q = <<>> THEN <<>> ELSE <<" " \o Glue(Take(q, MinOf(w, Len(q))), " ")>> \o Wrap(Drop(q, MinOf(w, Len(q))), w)
SeqOf(S) == IF S = {} THEN <<>> ELSE LET x == CHOOSE x \in S : TRUE IN <<x>> \o SeqOf(S \ {x})
Case(s, c) == IF c = 1 THEN Up(s) ELSE s
\* Tecplot: s.o old or new keywords, s.b block, s.v how cell variables are told, s.l one line or many, s.c capitals
WriteTecMesh(m, s) ==
   LET pk == SeqOf(DOMAIN m.pd) ck == SeqOf(DOMAIN m.cd)
       d == Len(m.pts[1]) n == Len(m.pts) e == Len(m.cells)
       nm == SubSeq(<<"X", "Y", "Z">>, 1, d) \o pk \o ck
       col(a) == [r \in 1..Len(a) |-> Txt(a[r][1])]
       cols == [k \in 1..d |-> [r \in 1..n |-> Txt(m.pts[r][k])]] \o [k \in 1..Len(pk) |-> col(m.pd[pk[k]])] \o [k \in 1..Len(ck) |-> col(m.cd[ck[k]])]
       np == d + Len(pk) nc == Len(ck)
       kind == CHOOSE x \in {"FETRIANGLE", "FEQUADRILATERAL", "FETETRAHEDRON", "FEBRICK"} : TecShape[x] = m.cells[1].t
       loc == IF nc = 0 THEN <<>>
              ELSE CASE s.v = "nv" -> <<"NV = " \o ToString(np)>>
                     [] s.v = "range" -> <<"VARLOCATION=([" \o ToString(np + 1) \o (IF nc = 1 THEN "" ELSE "-" \o ToString(np + nc)) \o "]=CELLCENTERED)">>
                     [] s.v = "list" -> <<"VARLOCATION = ([1-" \o ToString(np) \o "] = NODAL, [" \o Glue([k \in 1..nc |-> ToString(np + k)], ",") \o "] = CELLCENTERED)">>
                     [] OTHER -> <<"VARLOCATION=(" \o Glue([k \in 1..(np + nc) |-> IF k <= np THEN "NODAL" ELSE "CELLCENTERED"], ", ") \o ")">>
       ent == <<"T=\"a zone, N=3\"">> \o (IF s.o = 1 THEN <<"N=" \o ToString(n), "E=" \o ToString(e), "F=" \o (IF s.b = 1 THEN "FEBLOCK" ELSE "FEPOINT"), "ET=" \o SubSeq(kind, 3, Len(kind))>>
                                          ELSE <<"NODES = " \o ToString(n), "ELEMENTS =" \o ToString(e), "DATAPACKING=" \o (IF s.b = 1 THEN "BLOCK" ELSE "POINT"), "ZONETYPE = " \o kind>>) \o loc
       vn == [k \in 1..Len(nm) |-> Q \o nm[k] \o Q]
   IN <<"# a remark", "TITLE = \"x\"">>
      \o (IF s.l = 1 THEN <<"VARIABLES = " \o vn[1]>> \o Tail(vn) ELSE <<"VARIABLES=" \o Glue(vn, ",")>>)
      \o (IF s.l = 1 THEN <<"ZONE " \o ent[1]>> \o [k \in 1..(Len(ent) - 1) |-> ", " \o ent[k + 1]] ELSE <<"ZONE " \o Glue(ent, ", ")>>)
      \o (IF s.b = 1 THEN IF s.l = 1 THEN Wrap(Join(cols), 7) ELSE Join([k \in 1..Len(cols) |-> Wrap(cols[k], 2)])
          ELSE [r \in 1..n |-> Glue([k \in 1..Len(cols) |-> cols[k][r]], " ")])
      \o [r \in 1..e |-> Glue([k \in 1..Len(m.cells[r].n) |-> ToString(m.cells[r].n[k] + 1)], " ")]
WriteAvsMesh(m, s) ==
   LET n == Len(m.pts) e == Len(m.cells)
       name(t) == CHOOSE x \in DOMAIN AvsShape : AvsShape[x] = t
       block(dd, k, c) == IF dd = {} THEN <<>>
          ELSE LET q == SeqOf(dd)
                   w == [x \in dd |-> Len(k[x][1])]
                   line(r) == Id(r, s) \o " " \o Glue([i \in 1..Len(q) |-> TxtRow(k[q[i]][r])], " ")
                   all == [r \in 1..c |-> line(r)]
               IN <<ToString(Len(q)) \o " " \o Glue([i \in 1..Len(q) |-> ToString(w[q[i]])], " ")>>
                  \o [i \in 1..Len(q) |-> IF s.u = 1 THEN q[i] \o ", m/s" ELSE q[i]] \o (IF s.id = 2 THEN Rev(all) ELSE all)
       sum(k, dd) == LET RECURSIVE f(_) f(S) == IF S = {} THEN 0 ELSE LET x == CHOOSE x \in S : TRUE IN Len(k[x][1]) + f(S \ {x}) IN f(dd)
       ck == DOMAIN m.cd \ {"material"}
   IN (IF s.u = 1 THEN <<"# a remark", "#">> ELSE <<>>)
      \o <<Glue([k \in 1..5 |-> ToString((<<n, e, sum(m.pd, DOMAIN m.pd), sum(m.cd, ck), 0>>)[k])], "  ")>>
      \o [r \in 1..n |-> Id(r, s) \o " " \o TxtRow(m.pts[r])]
      \o [r \in 1..e |-> LET c == m.cells[r] IN Id(r, s) \o " " \o (IF m.cd["material"][r][1] = "f0E0" THEN "0" ELSE "17") \o " " \o name(c.t) \o " " \o
             Glue([k \in 1..Len(c.n) |-> Id(MF!Perm(c.n, MF!AvsOrder[c.t])[k] + 1, s)], " ")]
      \o block(DOMAIN m.pd, m.pd, n) \o block(ck, m.cd, e)
FlacPlace(t, n) == LET o == MF!FlacBack[t] IN [k \in 1..Len(o) |-> n[CHOOSE j \in 1..Len(o) : o[j] = k - 1]]
WriteFlacMesh(m, s) ==
   LET n == Len(m.pts) e == Len(m.cells)
       three == {r \in 1..e : m.cells[r].t \in MF!ThreeD}
       line(r) == LET c == m.cells[r] p == FlacPlace(c.t, c.n) IN
          (IF r \in three THEN "Z " ELSE "F ") \o MF!FlacName[c.t] \o " " \o Id(r, s) \o " " \o Glue([k \in 1..Len(p) |-> Id(p[k] + 1, s)], " ")
       mem(g, z) == {r \in 1..Len(m.mats) : m.mats[r] = g /\ (r \in three) = z}
       nmq(g) == IF s.u = 1 \/ Find(g, {" "}, 1) # 0 THEN Q \o g \o Q ELSE g
       grp(g, z) == LET S == mem(g, z) IN IF S = {} THEN <<>>
           ELSE <<(IF z THEN "ZGROUP " ELSE "FGROUP ") \o nmq(g) \o (IF s.u = 1 THEN " SLOT 1" ELSE "")>> \o Wrap([k \in 1..Cardinality(S) |-> Id(SeqOf(S)[k], s)], 2)
   IN <<"* FLAC3D grid", "* GRIDPOINTS">> \o [r \in 1..n |-> "G " \o Id(r, s) \o " " \o TxtRow(m.pts[r])]
      \o (IF s.id = 2 THEN <<"">> ELSE <<>>) \o <<"* CELLS">> \o [r \in 1..e |-> line(r)]
      \o <<"* GROUPS">> \o Join([k \in 1..2 |-> grp(GroupNames[k], TRUE)]) \o Join([k \in 1..2 |-> grp(GroupNames[k], FALSE)])
text == CASE fmt = "tecplot" -> WriteTecMesh(mesh, st) [] fmt = "avsucd" -> WriteAvsMesh(mesh, st) [] OTHER -> WriteFlacMesh(mesh, st)
Init ==
   /\ fmt \in {"tecplot", "avsucd", "flac3d"}
   /\ \E ts \in UNION {[1..n -> Types(fmt)] : n \in 1..NCells}, d \in {2, 3}, k \in 0..NData, j \in 0..NData, w \in {1, 3}, g \in 0..2 :
        /\ (fmt = "tecplot" => \A i \in 1..Len(ts) : ts[i] = ts[1])
        /\ (fmt # "tecplot" => d = 3) /\ (fmt # "avsucd" => w = 1) /\ (fmt # "flac3d" => g = 0) /\ (fmt = "flac3d" => k = 0 /\ j = 0)
        /\ mesh = Make(fmt, Chain(ts, 0), d, k, j, w, g)
   /\ st \in [o : {0, 1}, b : {0, 1}, v : {"nv", "range", "list", "each"}, l : {0, 1}, id : {0, 1, 2}, u : {0, 1}]
   /\ (fmt = "tecplot" => st.id = 0 /\ st.u = 0 /\ (st.b = 0 => DOMAIN mesh.cd = {}) /\ (DOMAIN mesh.cd = {} => st.v = "nv"))
   /\ (fmt # "tecplot" => st.o = 0 /\ st.b = 0 /\ st.v = "nv" /\ st.l = 0)
Next == UNCHANGED vars
Spec == Init /\ [][Next]_vars
\* groups that hold no cell do not exist
Norm(m) == IF \A i \in 1..Len(m.mats) : m.mats[i] = "" THEN [m EXCEPT !.mats = <<>>] ELSE m
Inverse == MeshOf(fmt, text) = Norm(mesh)
Emitted == Emit = 1 => PrintT("@FILE " \o ToJson([fmt |-> fmt, lines |-> text]))
=============================================================================
