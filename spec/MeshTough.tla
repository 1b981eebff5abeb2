------------------------------ MODULE MeshTough ------------------------------
(***************************************************************************)
(* The MESH and INCON files of a mesh.                                     *)
(* A mesh is a Topo mesh (coordinates times 10^k) with a label length, a   *)
(* material per cell ("s<name>" or "i<number>"), boundary flags; the files *)
(* are read with the record layouts and the reader of Deck.                *)
(***************************************************************************)
EXTENDS Deck
T == INSTANCE Topo
B == INSTANCE Big WITH Base <- 10000
Lab == INSTANCE Labels WITH NAlpha <- 26, NNomen <- 35, NNum <- 10

LabelLength(n, ll) == IF ll = 0 THEN Lab!AutoLength(n) ELSE ll
CellLabels(n, ll) == LET L == LabelLength(n, ll) IN [i \in 1..n |-> Lab!Label(L, i - 1)]

\* ---- order of the elements -------------------------------------------------
RECURSIVE Pick(_, _, _)
Pick(in, want, i) == IF i > Len(in) THEN <<>> ELSE (IF in[i] = want THEN <<i>> ELSE <<>>) \o Pick(in, want, i + 1)
\* cells of the materials to put at the end come last, both groups in cell order
CellOrder(mats, ends) == LET e == [i \in 1..Len(mats) |-> mats[i] \in ends]
                         IN Pick(e, FALSE, 1) \o Pick(e, TRUE, 1)
Renamed(m, names) == IF m \in DOMAIN names THEN names[m] ELSE m

\* ---- numbers of a record -----------------------------------------------------
\* |v| < 10^(k-9): rounding noise on a coordinate scale of 10^k
Tiny(v, k) == v = "f0E0" \/ FExp(v) + Len(FDigs(v)) <= k - 9
IsRatio(v, num, den, k, ppm) == IsFloat(v) /\ (IF num = 0 THEN Tiny(v, k) ELSE T!FIsRatio(v, num, den, k, ppm))
IsRoot(v, num, den, k, ppm) == IsFloat(v) /\ FSign(v) = "" /\ (IF num = <<>> THEN Tiny(v, k) ELSE T!FIsSqrt(v, num, den, k, ppm))
Len2(v) == B!BAdd(B!BSq(B!BAbs(v[1])), B!BAdd(B!BSq(B!BAbs(v[2])), B!BSq(B!BAbs(v[3]))))
\* product of two integers, as a natural
Mul(a, b) == B!BMul(B!BAbs(a), B!BAbs(b))

ElementOK(M, e, r, mat, bc, k, coord) ==
   LET c == M.cells[e]
       s == T!CSum(M, c)
       If(x, y) == IF x THEN {y} ELSE {}
   IN If(Get(r.s, "material", None) # mat, "eleme_material")
      \cup If(~IsRatio(Get(r.s, "volume", None), T!Vol6(M, c), 6, 3 * k + (IF bc THEN 50 ELSE 0), 60), "eleme_volume")
      \cup If(~(\A d \in 1..3 : IsRatio(r.center[d], s[d], Len(c.n), k, IF coord THEN 1 ELSE 600)), "eleme_centre")

\* one connection between cells i and j (order of the record) through facet fc
Direction(lv) == LET nz == {d \in 1..3 : lv[d] # 0} IN
   IF Cardinality(nz) = 1 THEN "i" \o ToString(CHOOSE d \in nz : TRUE) ELSE "i1"
ConnectionOK(M, i, j, fc, r, bci, bcj, k, method) ==
   LET o == M.pts[1]
       ci == T!C120(M, M.cells[i], o)
       cj == T!C120(M, M.cells[j], o)
       lv == T!Sub3(cj, ci)
       L2 == Len2(lv)
       rings == T!Rings(M.cells[i])
       ring == rings[CHOOSE f \in 1..Len(rings) : T!SetOf(rings[f]) = fc]
       n == T!AreaVec(M, ring)
       p == [d \in 1..3 |-> 120 * (T!P(M, ring[1])[d] - o[d])]
       dn(x) == T!Dot(T!Sub3(p, x), n)            \* 120 |n| times the distance to the face
       b == T!Dot(lv, n)
       dist(x, bc, v) == IF bc THEN v = "f1E-9"
                         ELSE IF method = "line"
                              THEN IsRoot(v, B!BMul(Mul(dn(x), dn(x)), L2), B!BMul(Mul(b, b), Mul(120, 120)), k, 60)
                              ELSE IsRoot(v, Mul(dn(x), dn(x)), B!BMul(Len2(n), Mul(120, 120)), k, 60)
       beta == Get(r.s, "gravity_cosine_angle", None)
       dz == ci[3] - cj[3]                          \* gravity points down
       If(x, y) == IF x THEN {y} ELSE {}
   IN If(Get(r.s, "permeability_direction", None) # Direction(lv), "conne_direction")
      \cup If(~dist(ci, bci, r.dist[1]), "conne_distance1") \cup If(~dist(cj, bcj, r.dist[2]), "conne_distance2")
      \cup If(~IsRoot(Get(r.s, "interface_area", None), Len2(n), B!BNat(4), 2 * k, 60), "conne_area")
      \cup If(~IsFloat(beta) \/ (IF dz = 0 THEN ~Tiny(beta, 0)
               ELSE (FSign(beta) = "-") # (dz < 0)
                    \/ ~T!FIsSqrt(beta, Mul(dz, dz), L2, 0, 700)), "conne_gravity")

MeshFileClauses(e) ==
   LET M == [pts |-> e.pts, cells |-> e.cells]
       n == Len(e.cells)
       L == LabelLength(n, e.ll)
       labels == CellLabels(n, e.ll)
       coord == e.coord = "1"
       R == Parse(e.lines, L)
       hd == IF coord THEN CHOOSE i \in 1..Len(e.lines) : Keyword(e.lines[i]) = "COORD" ELSE 0
       R0 == IF coord THEN Parse(SubSeq(e.lines, 1, hd - 1), L) ELSE R
       ends == {e.mend[i] : i \in 1..Len(e.mend)}
       order == CellOrder(e.mats, ends)
       fs == T!AllFacets(M)
       links == T!Links(fs)
       num == [x \in {labels[i] : i \in 1..n} |-> CHOOSE i \in 1..n : labels[i] = x]
       A(x) == SubSeq(x, 1, L)
       Z(x) == SubSeq(x, L + 1, 2 * L)
       good == \A k \in 1..Len(R.d.corder) : LET x == R.d.corder[k] IN
                  Len(x) = 2 * L /\ A(x) \in DOMAIN num /\ Z(x) \in DOMAIN num
       If(x, y) == IF x THEN {y} ELSE {}
   IN R.bad
      \cup If(SeenKeys(R) # (IF coord THEN <<"ELEME", "COORD", "CONNE">> ELSE <<"ELEME", "CONNE">>), "blocks")
      \cup If(~(\A i \in 1..Len(e.lines) : Len(e.lines[i]) <= 80), "record_over_80_columns")
      \cup (IF R.d.eorder # [i \in 1..n |-> labels[order[i]]] THEN {"eleme_labels"}
            ELSE UNION {ElementOK(M, i, R0.d.elements[labels[i]], Renamed(e.mats[i], e.mname), e.bc[i] # 0, e.k, FALSE)
                        \cup (IF coord THEN ElementOK(M, i, R.d.elements[labels[i]], Renamed(e.mats[i], e.mname), e.bc[i] # 0, e.k, TRUE) ELSE {})
                        : i \in 1..n})
      \cup (IF ~good THEN {"conne_labels"}
            ELSE LET pair(x) == LET a == num[A(x)] b == num[Z(x)] IN IF a < b THEN <<a, b>> ELSE <<b, a>>
                     want == {<<x[1], x[2]>> : x \in links}
                     got == {pair(R.d.corder[k]) : k \in 1..Len(R.d.corder)}
                 IN If(want # got, "conne_pairs") \cup If(Len(R.d.corder) # Cardinality(got), "conne_twice")
                    \cup (IF want # got THEN {} ELSE
                       UNION {LET i == num[A(x)] j == num[Z(x)]
                                  fc == (CHOOSE y \in links : <<y[1], y[2]>> = pair(x))[3]
                              IN ConnectionOK(M, i, j, fc, R.d.conns[x], e.bc[i] # 0, e.bc[j] # 0, e.k, e.method)
                              : x \in {R.d.corder[k] : k \in 1..Len(R.d.corder)}}))

-----------------------------------------------------------------------------
(* INCON: one record per cell that has anything to say.                    *)
Unset == "f-1E9"
Blank(v) == IF v = Unset THEN None ELSE v
InconOf(e, i) ==
   [porosity |-> IF e.por = <<>> THEN None ELSE Stored(e.por[i], F15),
    userx |-> IF e.perm = <<>> THEN <<>> ELSE StoreAll(e.perm[i], F10c),
    values |-> TrimNone([k \in 1..Len(e.ic[i]) |-> IF Blank(e.ic[i][k]) = None THEN None ELSE Stored(e.ic[i][k], F20)])]
HasIncon(e, i) == e.por # <<>> \/ e.perm # <<>> \/ \E k \in 1..Len(e.ic[i]) : e.ic[i][k] # Unset
AnyIC(e) == \E i \in 1..Len(e.ic) : \E k \in 1..Len(e.ic[i]) : e.ic[i][k] # Unset
InconClauses(e) ==
   LET n == Len(e.ic)
       L == LabelLength(n, e.ll)
       labels == CellLabels(n, e.ll)
       who == Pick([i \in 1..n |-> HasIncon(e, i)], TRUE, 1)
       R == Parse(e.lines, L)
       If(x, y) == IF x THEN {y} ELSE {}
   IN IF ~AnyIC(e) THEN If(e.written = "1", "incon_written_without_conditions")
      ELSE IF e.written = "0" THEN {"incon_not_written"}
      ELSE R.bad \cup If(SeenKeys(R) # <<"INCON">>, "blocks")
           \cup (IF R.d.iorder # [i \in 1..Len(who) |-> labels[who[i]]] THEN {"incon_labels"}
                 ELSE UNION {LET w == InconOf(e, i) g == R.d.incons[labels[i]] IN
                        If(g.porosity # w.porosity, "incon_porosity") \cup If(g.userx # TrimNone(w.userx), "incon_permeability")
                        \cup If(g.values # w.values, "incon_values") : i \in {who[k] : k \in 1..Len(who)}})
=============================================================================
