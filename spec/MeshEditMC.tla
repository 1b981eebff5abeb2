------------------------------ MODULE MeshEditMC ------------------------------
(* Edit histories over a tiny mesh, with constructive versions of the edits  *)
(* (each must satisfy its relation), ghost names of the materials, and the   *)
(* histories themselves, replayed on the library.                            *)
EXTENDS MeshEdit, Json
CONSTANTS Depth, Emit
VARIABLES mesh, ghost, hist
vars == <<mesh, ghost, hist>>
Names == {"dfalt", "A", "B"}
\* two quads side by side, and the first again on other points
M0 == [dim |-> 2, pts |-> <<<<0,0>>, <<1,0>>, <<1,1>>, <<0,1>>, <<2,0>>, <<2,1>>, <<1,0>>>>,
       blocks |-> <<[t |-> "quad", n |-> <<<<0,1,2,3>>, <<1,4,5,2>>, <<0,6,2,3>>>>]>>,
       cd |-> [material |-> <<<<"i1">>, <<"i1">>, <<"i1">>>>, uid |-> <<<<"i1">>, <<"i2">>, <<"i3">>>>],
       pd |-> [p |-> <<<<"i0">>, <<"i1">>, <<"i2">>, <<"i3">>, <<"i4">>, <<"i5">>, <<"i6">>>>],
       fd |-> [dfalt |-> 1], mats |-> <<"sdfalt", "sdfalt", "sdfalt">>, vols |-> <<>>]
NameOf(fd, id) == CHOOSE k \in Keys(fd) : Id(fd[k]) = id
WithMats(M) == [M EXCEPT !.mats = [c \in 1..NCells(M) |-> "s" \o NameOf(M.fd, M.cd["material"][c][1])]]
MaxOver(S) == CHOOSE x \in S : \A y \in S : y <= x
DoSet(M, nm, S) ==
   LET id == IF nm \in Keys(M.fd) THEN M.fd[nm] ELSE 1 + MaxOver({M.fd[k] : k \in Keys(M.fd)})
   IN WithMats([M EXCEPT !.fd = [k \in Keys(M.fd) \cup {nm} |-> IF k = nm THEN id ELSE M.fd[k]],
                         !.cd["material"] = [c \in 1..NCells(M) |-> IF c \in S THEN <<Id(id)>> ELSE @[c]]])
\* first of each family of equal points / cells
FirstPt(M, v) == CHOOSE u \in 0..v : Co(M, u) = Co(M, v) /\ \A x \in 0..(u - 1) : Co(M, x) # Co(M, v)
DoPrune(M) ==
   LET keepP == SelectSeq([i \in 1..Len(M.pts) |-> i], LAMBDA i : FirstPt(M, i - 1) = i - 1)
       pos(v) == CHOOSE j \in 1..Len(keepP) : keepP[j] = FirstPt(M, v) + 1
       ren(n) == [k \in 1..Len(n) |-> pos(n[k]) - 1]
       b == M.blocks[1]
       keepC == SelectSeq([i \in 1..Len(b.n) |-> i], LAMBDA i : \A j \in 1..(i - 1) : SetOf(ren(b.n[j])) # SetOf(ren(b.n[i])))
       pick(s, ks) == [i \in 1..Len(ks) |-> s[ks[i]]]
   IN [M EXCEPT !.pts = pick(@, keepP), !.pd = [k \in Keys(@) |-> pick(@[k], keepP)],
                !.blocks = <<[t |-> b.t, n |-> [i \in 1..Len(keepC) |-> ren(b.n[keepC[i]])]]>>,
                !.cd = [k \in Keys(@) |-> pick(@[k], keepC)], !.mats = pick(@, keepC)]
RECURSIVE Repeat(_, _)
Repeat(s, n) == IF n = 0 THEN <<>> ELSE s \o Repeat(s, n - 1)
DoExtrude(M, nh) ==
   LET np == Len(M.pts)
       lay(l) == [i \in 1..np |-> Lift(Base3(M, M.pts[i], 2), 2, l)]
       RECURSIVE Lay(_)
       Lay(l) == IF l > nh THEN <<>> ELSE lay(l) \o Lay(l + 1)
       RECURSIVE Cel(_)
       Cel(l) == IF l > nh THEN <<>>
                 ELSE [i \in 1..Len(M.blocks[1].n) |-> LET n == M.blocks[1].n[i] IN
                          [k \in 1..4 |-> n[k] + (l - 1) * np] \o [k \in 1..4 |-> n[k] + l * np]] \o Cel(l + 1)
   IN [M EXCEPT !.dim = 3, !.pts = Lay(0), !.pd = [k \in Keys(@) |-> Repeat(@[k], nh + 1)],
                !.blocks = <<[t |-> "hexahedron", n |-> Cel(1)]>>,
                !.cd = [k \in Keys(@) |-> Repeat(@[k], nh)], !.mats = Repeat(@, nh)]
\* kinds without a constructive model here: replayed only
Others == {"add_cell", "add_point", "c2p", "p2c", "meshio", "pyvista", "bad", "write", "prune_copy", "extrude_copy"}
Log(x) == hist' = Append(hist, x)
Modelled == \A i \in 1..Len(hist) : hist[i].op \notin {"c2p", "p2c"}
Init == mesh = M0 /\ ghost = M0.mats /\ hist = <<>>
SetAct == \E nm \in Names : \E S \in {{1}, {2}, {1, 2}, 1..NCells(mesh)} :
   /\ S \subseteq 1..NCells(mesh)
   /\ mesh' = DoSet(mesh, nm, S)
   /\ Assert(SetMaterialRel(mesh, mesh', nm, S), "set_material relation")
   /\ ghost' = [c \in 1..NCells(mesh) |-> IF c \in S THEN "s" \o nm ELSE ghost[c]]
   /\ Log([op |-> "set", name |-> nm, cells |-> [i \in 1..NCells(mesh) |-> IF i \in S THEN 1 ELSE 0]])
PruneAct ==
   /\ mesh' = DoPrune(mesh)
   /\ Assert(PruneRel(mesh, mesh'), "prune relation")
   /\ ghost' = mesh'.mats
   /\ Log([op |-> "prune", name |-> "", cells |-> <<>>])
ExtrudeAct ==
   /\ mesh.dim = 2
   /\ \E nh \in 1..2 :
        /\ mesh' = DoExtrude(mesh, nh)
        /\ Assert(ExtrudeRel(mesh, mesh', [i \in 1..nh |-> 1], 2), "extrude relation")
        /\ ghost' = Repeat(ghost, nh)
        /\ Log([op |-> "extrude", name |-> ToString(nh), cells |-> <<>>])
OtherAct ==
   /\ Emit >= 2
   /\ \E o \in Others : UNCHANGED <<mesh, ghost>> /\ Log([op |-> o, name |-> "", cells |-> <<>>])
Next == Len(hist) < Depth /\ (SetAct \/ PruneAct \/ ExtrudeAct \/ OtherAct)
Spec == Init /\ [][Next]_vars
Lengths == Consistent(mesh)
GhostNames == mesh.mats = ghost
DistinctIds == \A a, b \in Keys(mesh.fd) : a # b => mesh.fd[a] # mesh.fd[b]
\* an edit never makes up a cell: uids stay those of before
Uids == SetOf(mesh.cd["uid"]) \subseteq {<<"i1">>, <<"i2">>, <<"i3">>} /\ {<<"i2">>} \subseteq SetOf(mesh.cd["uid"])
Emitted == (Emit > 0 /\ Len(hist) = Depth) => PrintT("@HIST " \o ToJson(hist))
=============================================================================
