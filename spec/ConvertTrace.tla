------------------------------ MODULE ConvertTrace ------------------------------
(* Recorded runs of toughio-extract and toughio-export.                          *)
EXTENDS Convert, Json, IOUtils
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLE l
Sch(p, S) == {p \o x : x \in S}
\* a refused run leaves no file behind and changes none
Refused(e) == If(e.err = "", "accepted") \cup If(StartsWith(e.err, "HANG"), "hang") \cup If(e.new # <<>> \/ e.changed # "0", "refused_but_wrote")
\* e: lines, mlines, L, o, bad (missing files), files: name -> lines
Extract(e) ==
   LET ty == IF e.o.conn = "1" THEN "connection" ELSE "element"
       kind == IF e.bad = "1" THEN "none" ELSE Detect(e.lines)
   IN IF e.bad = "1" \/ kind # "tough" \/ (ty = "connection" /\ e.o.fmt # "csv") THEN Refused(e)
      ELSE LET p == TLCEval(ParseListing(e.lines, ty, e.L))
               C == TLCEval(Centres(e.mlines, e.L))
               tab == [ty |-> ty, steps |-> p.steps]
           IN IF ~p.ok \/ p.steps = <<>> \/ C = EmptyDict \/ ~Covers(C, tab) THEN Refused(e)
              ELSE IF e.err # "" THEN {"raised"}
              ELSE LET want == TLCEval(Extracted(WithXYZ(C, tab), e.o)) IN
                   If(e.changed # "0", "inputs_changed")
                   \cup (IF DOMAIN e.files # DOMAIN want THEN {"names_of_files"}
                         ELSE UNION {IF Detect(e.files[n]) # e.o.fmt THEN {"format"}
                                     ELSE SameTab(Rounded(want[n], e.o.fmt), Parse(e.files[n])) : n \in DOMAIN want})
\* ---- export --------------------------------------------------------------------------
\* steps of any result file; SAVE files have no time
StepsOf(e) ==
   LET kind == Detect(e.lines) IN
   CASE kind = "tough" -> ParseListing(e.lines, "element", 5).steps
     [] kind = "save" -> LET els == ParseSave(e.lines, 5, e.nv) IN
           <<[t |-> None, labels |-> [i \in 1..Len(els) |-> Body(els[i].label)], names |-> [k \in 1..e.nv |-> "X" \o ToString(k)],
              rows |-> [i \in 1..Len(els) |-> els[i].values]]>>
     [] OTHER -> Parse(e.lines).steps
\* e.res: pts, cells [t, n], steps [t, loc, data]
DataOK(e, s, r, order) == \* order[c]: the row of cell or point c
   IF \E n \in Shown(s) : n \notin DOMAIN r.data THEN {"variables"}
   ELSE If(\E n \in Shown(s) : LET c == Col(s, n) IN Len(r.data[n]) # Len(order) \/ \E i \in 1..Len(order) : i <= Len(r.data[n]) /\ r.data[n][i] # c[order[i]], "values")
Iota(n) == [i \in 1..n |-> i]
\* steps shown, in the order of the file
Selected(e, st) == IF e.o.fmt = "xdmf" THEN st ELSE <<st[StepOf(Len(st), IF e.o.t = "" THEN -1 ELSE ToIntS(e.o.t))]>>
Match(e, sel, f(_, _)) ==
   IF Len(e.res.steps) # Len(sel) THEN {"number_of_steps"}
   ELSE UNION {If(e.o.fmt = "xdmf" /\ sel[i].t # None /\ e.res.steps[i].t # sel[i].t, "time") \cup f(sel[i], e.res.steps[i]) : i \in 1..Len(sel)}
OnMesh(e, sel) ==
   If(e.res.pts # e.mesh.pts, "mesh_points") \cup If(e.res.cells # e.mesh.cells, "mesh_cells")
   \cup Match(e, sel, LAMBDA s, r : If(r.loc # "cell", "location") \cup DataOK(e, Follow(s, e.mesh.labels), r, Iota(Len(e.mesh.labels))))
\* rows of a step in the order of the rows of the first one
Aligned(s0, s) == IF s0.labels = <<>> \/ s.labels = s0.labels THEN s ELSE Follow(s, s0.labels)
Corner(e, c) == LET n == e.res.cells[c].n IN [d \in 1..3 |-> LET S == {K(e.res.pts[n[k] + 1][d]) : k \in 1..Len(n)} IN <<CHOOSE a \in S : \A b \in S : a <= b, CHOOSE a \in S : \A b \in S : b <= a>>]
Brick(e, c) == /\ e.res.cells[c].t = "hexahedron"
               /\ LET n == e.res.cells[c].n q == {[d \in 1..3 |-> K(e.res.pts[n[k] + 1][d])] : k \in 1..8} IN
                  Cardinality(q) = 8 /\ \A d \in 1..3 : Cardinality({p[d] : p \in q}) = 2
OnVoxels(e, sel, s0) ==
   LET v == TLCEval(Voxels(s0, e.o.org)) nc == Len(e.res.cells) IN
   IF nc # Len(v) THEN {"number_of_voxels"}
   ELSE IF \E c \in 1..nc : ~Brick(e, c) THEN {"voxel_shape"}
   ELSE LET b == TLCEval([c \in 1..nc |-> Corner(e, c)]) IN
        IF {b[c] : c \in 1..nc} # {v[r] : r \in 1..Len(v)} THEN {"voxels"}
        ELSE LET row == TLCEval([c \in 1..nc |-> CHOOSE r \in 1..Len(v) : v[r] = b[c]])
             IN Match(e, sel, LAMBDA s, r : If(r.loc # "cell", "location") \cup DataOK(e, Aligned(s0, s), r, row))
Det2(a, b) == a[1] * b[2] - a[2] * b[1]
Sub2(a, b) == [d \in DOMAIN a |-> a[d] - b[d]]
AbsI(n) == IF n < 0 THEN -n ELSE n
Det3(a, b, c) == a[1] * (b[2] * c[3] - b[3] * c[2]) - a[2] * (b[1] * c[3] - b[3] * c[1]) + a[3] * (b[1] * c[2] - b[2] * c[1])
RECURSIVE SumTo(_, _)
SumTo(f, n) == IF n = 0 THEN 0 ELSE f[n] + SumTo(f, n - 1)
Simplex(e, c) == \* twice the area or six times the volume, in half units
   LET n == e.res.cells[c].n P(k) == [d \in 1..Len(e.res.pts[n[k] + 1]) |-> K(e.res.pts[n[k] + 1][d]) \div 500] IN
   IF Len(n) = 3 THEN AbsI(Det2(Sub2(P(2), P(1)), Sub2(P(3), P(1)))) ELSE AbsI(Det3(Sub2(P(2), P(1)), Sub2(P(3), P(1)), Sub2(P(4), P(1))))
Span(s, d) == LET S == {K(Coord(s, d)[r]) \div 500 : r \in 1..Len(s.rows)} IN (CHOOSE a \in S : \A b \in S : b <= a) - (CHOOSE a \in S : \A b \in S : a <= b)
OnPoints(e, sel, s0) ==
   LET ax == Axes(s0) n == Len(s0.rows) nc == Len(e.res.cells) type == IF Len(ax) = 2 THEN "triangle" ELSE "tetra" IN
   IF Len(e.res.pts) # n THEN {"number_of_points"}
   ELSE If(\E r \in 1..n : \E k \in 1..Len(e.res.pts[r]) : e.res.pts[r][k] # IF k <= Len(ax) THEN Coord(s0, ax[k])[r] ELSE "f0E0", "points")
        \cup If(nc = 0 \/ \E c \in 1..nc : e.res.cells[c].t # type \/ Cardinality(SetOf(e.res.cells[c].n)) # Len(ax) + 1, "simplices")
        \cup If(e.grid = "1" /\ SumTo([c \in 1..nc |-> Simplex(e, c)], nc) # (IF Len(ax) = 2 THEN 2 * Span(s0, ax[1]) * Span(s0, ax[2]) ELSE 6 * Span(s0, 1) * Span(s0, 2) * Span(s0, 3)), "triangulation")
        \cup Match(e, sel, LAMBDA s, r : If(r.loc # "point", "location") \cup DataOK(e, Aligned(s0, s), r, Iota(n)))
Covered(L, s) == Len(s.labels) = Len(L) /\ SetOf(s.labels) = SetOf(L)
Export(e) ==
   LET kind == IF e.bad = "1" THEN "none" ELSE Detect(e.lines) IN
   IF kind = "none" \/ (e.o.voxel = "1" /\ e.o.mesh = "0" /\ e.o.org = <<>>) THEN Refused(e)
   ELSE LET st == TLCEval(StepsOf(e)) m == Len(st) IN
     IF m = 0 \/ (e.o.fmt # "xdmf" /\ e.o.t # "" /\ ~StepOK(m, ToIntS(e.o.t))) THEN Refused(e)
     ELSE LET sel == TLCEval(Selected(e, st)) s0 == sel[1] IN
       IF e.o.mesh = "1" /\ kind # "tecplot"
       THEN IF \E i \in 1..Len(sel) : ~Covered(e.mesh.labels, sel[i]) THEN Refused(e)
            ELSE IF e.err # "" THEN {"raised"} ELSE Sch("mesh_", OnMesh(e, sel))
       ELSE IF ~HasXYZ(s0) THEN Refused(e)
       ELSE IF (e.o.voxel = "1" /\ e.o.mesh = "0") \/ Len(Axes(s0)) <= 1
            THEN IF e.o.org = <<>> \/ ~Gridded(s0) \/ ~OriginOK(s0, e.o.org) THEN Refused(e)
                 ELSE IF ~Sound(Voxels(s0, e.o.org)) THEN {}
                 ELSE IF e.err # "" THEN {"raised"} ELSE Sch("voxels_", OnVoxels(e, sel, s0))
            ELSE IF e.err # "" THEN {"raised"} ELSE Sch("points_", OnPoints(e, sel, s0))
Exported(e) == LET c == TLCEval(Export(e)) IN
   c \cup (IF e.err = "" /\ c # {"accepted"} THEN If(e.changed # "0", "inputs_changed") \cup If(~e.named, "name_of_file") ELSE {})
Clauses(e) == CASE e.ev = "extract" -> Extract(e) [] e.ev = "export" -> Exported(e)
Init == l = 1
Next == /\ l <= Len(Trace)
        /\ LET c == TLCEval(Clauses(Trace[l])) IN
           IF c = {} THEN TRUE ELSE PrintT("@FAIL " \o ToJson([l |-> l, clauses |-> c]))
        /\ l' = l + 1
TraceSpec == Init /\ [][Next]_l
TraceComplete == PrintT("@DONE " \o ToJson([n |-> TLCGet("stats").diameter - 1]))
=============================================================================
