-------------------------------- MODULE Deck --------------------------------
(***************************************************************************)
(* A TOUGH input deck.                                                     *)
(*   Norm(P)   - what the parameters P mean once stored in a deck: the     *)
(*               dictionary a reader must return (numbers rounded to their *)
(*               fields, defaults applied, unset values absent).           *)
(*   Step(R)   - the reader as a machine over lines: one step per block,   *)
(*               with look-ahead for records that may or may not be there. *)
(*   Layout    - what else must be true of the text of a written deck.     *)
(*   Render(P) - a writer, used to generate decks.                         *)
(* Value shapes (all leaves are canonical strings, see Text):              *)
(*   V  = <<"S", x>> (scalar) or <<"L", x1, ..., xn>> (list)               *)
(*   model = [id, par];  rock = [s, perm, ic, rp, cp, pm, ep]              *)
(***************************************************************************)
EXTENDS DeckFormat

Keywords == {"ROCKS","RPCAP","FLAC","MULTI","SOLVR","START","PARAM","SELEC","INDOM","MOMOP",
             "TIMES","FOFT","COFT","GOFT","GENER","DIFFU","OUTPU","ELEME","COORD","CONNE",
             "INCON","NOVER","ENDCY"}
Keyword(line) == IF Cols(line, 1, 5) \in Keywords THEN Cols(line, 1, 5)
                 ELSE IF Cols(line, 1, 4) \in Keywords THEN Cols(line, 1, 4) ELSE ""

AsV(s) == IF Len(s) = 1 THEN <<"S", s[1]>> ELSE <<"L">> \o s
VVals(v) == IF Len(v) = 0 THEN <<>> ELSE Tail(v)
NoModel == [id |-> None, par |-> <<>>]
EmptyRock == [s |-> EmptyDict, perm |-> <<>>, ic |-> <<>>, rp |-> NoModel, cp |-> NoModel,
              pm |-> NoModel, ep |-> NoModel]

EmptyDeck == [
   title |-> <<>>, tform |-> "none",
   s |-> [n_component |-> None, n_phase |-> None, n_component_mass |-> None,
          isothermal |-> "bF", start |-> "bT", nover |-> "bF", coordinates |-> "bF"],
   rorder |-> <<>>, rocks |-> EmptyDict, default |-> EmptyRock,
   flac |-> EmptyDict, solver |-> EmptyDict,
   opt |-> EmptyDict, tsteps |-> <<>>, mop |-> EmptyDict, momop |-> EmptyDict,
   selint |-> EmptyDict, selfl |-> <<>>, selform |-> "none",
   times |-> <<>>, foft |-> <<>>, coft |-> <<>>, goft |-> <<>>,
   gener |-> <<>>, diff |-> <<>>, outfmt |-> None, outvars |-> <<>>,
   eorder |-> <<>>, elements |-> EmptyDict, corder |-> <<>>, conns |-> EmptyDict,
   iorder |-> <<>>, incons |-> EmptyDict]

IsDet(s) == \A i \in 1..Len(s) : s[i] = s[1]

-----------------------------------------------------------------------------
(* What parameters mean.                                                   *)
F10e == F("x", 1, 10, "f", 4)
F10c == F("x", 1, 10, "f", 3)
F20  == F("x", 1, 20, "f", 13)
F14  == F("x", 1, 14, "f", 7)
F15  == F("x", 1, 15, "f", 9)

\* digits a written number may have in a field: every field kind by key
ScalarField == [k \in {"density","porosity","conductivity","specific_heat"} \cup
                 {Extra7[i] : i \in 1..7} |-> F10e]

RECURSIVE SeqToSet_(_, _)
SeqToSet_(s, i) == IF i > Len(s) THEN {} ELSE {s[i]} \cup SeqToSet_(s, i + 1)
InSeq(x, s) == \E i \in 1..Len(s) : s[i] = x
RECURSIVE FilterNotIn(_, _)
FilterNotIn(s, t) == IF s = <<>> THEN <<>>
                     ELSE (IF InSeq(Head(s), t) THEN <<>> ELSE <<Head(s)>>) \o FilterNotIn(Tail(s), t)
\* the given order completed by what it leaves out
CompleteOrder(given, keys) == IF given = <<>> THEN keys ELSE given \o FilterNotIn(keys, given)

NormModel(m, f) == IF m.id = None THEN NoModel
                   ELSE [id |-> m.id, par |-> TrimNone(StoreAll(m.par, f))]

\* defaults of a rock: everything but its initial condition, relative permeability and capillarity
WithDefault(P, r) ==
   [s |-> Overlay(P.default.s, r.s),
    perm |-> IF r.perm # <<>> THEN r.perm ELSE P.default.perm,
    ic |-> r.ic, rp |-> r.rp, cp |-> r.cp,
    pm |-> IF r.pm.id # None THEN r.pm
           ELSE IF P.default.pm.id # None THEN P.default.pm ELSE [id |-> "i1", par |-> <<>>],
    ep |-> IF r.ep.id # None THEN r.ep
           ELSE IF P.default.ep.id # None THEN P.default.ep ELSE [id |-> "i3", par |-> <<>>]]

HasExtra(r) == \E k \in {Extra7[i] : i \in 1..7} : Has(r.s, k) /\ r.s[k] # None
HasIC(r) == ~AllNone(r.ic)
IsIndom(P) == \E n \in DOMAIN P.rocks : \E i \in 1..MinOf(4, Len(P.rocks[n].ic)) : P.rocks[n].ic[i] # None

Perm3(v) == IF v = <<>> THEN <<None, None, None>>
            ELSE IF v[1] = "S" THEN <<v[2], v[2], v[2]>> ELSE VVals(v)
NormPerm(v) == LET p == StoreAll(Perm3(v), F10e) IN
               IF IsDet(p) THEN (IF p[1] = None THEN <<>> ELSE <<"S", p[1]>>) ELSE <<"L">> \o p

NormRock(P, r0) ==
   LET r == WithDefault(P, r0) IN
   [s |-> Prune([k \in DOMAIN r.s |-> Stored(r.s[k], F10e)]),
    perm |-> NormPerm(r.perm),
    ic |-> IF IsIndom(P) THEN TrimNone(StoreAll(r.ic, F20)) ELSE <<>>,
    rp |-> NormModel(r.rp, F10c), cp |-> NormModel(r.cp, F10c),
    pm |-> IF P.hasflac = "1" THEN NormModel(r.pm, F10c) ELSE NoModel,
    ep |-> IF P.hasflac = "1" THEN NormModel(r.ep, F10c) ELSE NoModel]

\* EOS -> number of components, phases (NK, NPH) of the module
EosTable == [eos1 |-> <<1,2>>, eos2 |-> <<2,2>>, eos3 |-> <<2,2>>, eos4 |-> <<2,2>>, eos5 |-> <<2,2>>,
             eos7 |-> <<3,2>>, eos8 |-> <<3,3>>, eos9 |-> <<1,1>>, eoswasg |-> <<3,3>>,
             eco2n |-> <<3,3>>, eco2n_v2 |-> <<3,3>>, eco2m |-> <<3,4>>]
IsSet(v) == v # None /\ v # "i0"
IsMulti(P) == P.eos # None \/ (IsSet(P.s.n_component) /\ IsSet(P.s.n_phase))
MultiNK(P)  == IF IsSet(P.s.n_component) THEN IntVal(P.s.n_component)
               ELSE IF P.eos # None THEN EosTable[Body(P.eos)][1] ELSE 0
MultiNPH(P) == IF IsSet(P.s.n_phase) THEN IntVal(P.s.n_phase)
               ELSE IF P.eos # None THEN EosTable[Body(P.eos)][2] ELSE 0
MultiNEQ(P) == MultiNK(P) + (IF P.s.isothermal = "bT" THEN 0 ELSE 1)
MultiNB(P)  == IF P.hasdiff = "1" THEN 8 ELSE 6

SolverDefault == [method |-> "i3", z_precond |-> "sZ0", o_precond |-> "sO0", rel_iter_max |-> "f1E-1", eps |-> "f1E-6"]
IntOpts == {"n_iteration","n_cycle","n_second","n_cycle_print","verbosity"}

NormOpt(d) == Prune([k \in DOMAIN d |-> IF k \in IntOpts THEN d[k] ELSE Stored(d[k], F10e)])
FloatsAs(s, f) == TrimNone(StoreAll(s, f))

\* selections: one list of floats, or one list per record
NormSel(P) == [i \in 1..Len(P.selfl) |-> FloatsAs(P.selfl[i], F10c)]
NormSelInt(P) == Prune(IF Len(P.selfl) > 0 THEN Overlay(P.selint, ("1" :> ("i" \o ToString(Len(P.selfl))))) ELSE P.selint)

GenKeys == {"name","nseq","nadd","nads","type","times","rates","specific_enthalpy","layer_thickness"}
GenStored(k, v, table) ==      \* one component's value of a key
   IF v = <<>> THEN <<"S", None>>
   ELSE IF v[1] = "S" THEN
        <<"S", IF k \in {"name","type","nseq","nadd","nads"} THEN v[2]
               ELSE IF v[2] = None THEN None ELSE Stored(v[2], F10c)>>
   ELSE <<"L">> \o StoreAll(VVals(v), F14)
\* one generator: key -> sequence of component values, unset keys absent
NormGen(g) ==
   LET n == Len(g.f["type"])
       val(k) == [i \in 1..n |-> IF k \in DOMAIN g.f THEN GenStored(k, g.f[k][i], FALSE) ELSE <<"S", None>>]
       keys == {k \in GenKeys : \E i \in 1..n : val(k)[i] # <<"S", None>>}
   IN [label |-> g.label, f |-> [k \in keys |-> val(k)]]

NormOut(rows) == [i \in 1..Len(rows) |-> TrimNone(rows[i])]

NormElem(e, coord) ==
   [s |-> Prune([k \in DOMAIN e.s \cup {"material"} |->
        IF k = "material" THEN (IF Get(e.s, k, None) = None THEN "s" ELSE e.s[k])
        ELSE IF k \in {"nseq","nadd"} THEN e.s[k] ELSE Stored(e.s[k], F10e)]),
    center |-> LET c == IF e.center = <<>> THEN <<None, None, None>> ELSE e.center IN
               StoreAll(c, IF coord THEN F20 ELSE F10c)]
NormConn(c) ==
   [s |-> Prune([k \in DOMAIN c.s |->
        IF k \in {"nseq","permeability_direction"} THEN c.s[k]
        ELSE IF k = "interface_area" THEN Stored(c.s[k], F10e) ELSE Stored(c.s[k], F10c)]),
    nadd |-> IF c.nadd = <<>> THEN <<None, None>> ELSE c.nadd,
    dist |-> StoreAll(IF c.dist = <<>> THEN <<None, None>> ELSE c.dist, F10e)]
NormIncon(c) ==
   [porosity |-> Stored(c.porosity, F15), userx |-> TrimNone(StoreAll(c.userx, F10c)),
    values |-> TrimNone(StoreAll(c.values, F20))]

Restrict(d, keys) == [k \in {x \in DOMAIN d : x \in keys} |-> d[k]]
NoneIfMissing(d, k) == Get(d, k, None)

\* elements, connections, initial conditions, generators: also alone in a file
NormMesh(P, D) ==
   LET eo == IF P.eorder # <<>> THEN P.eorder ELSE P.ekeys
       co == IF P.corder # <<>> THEN P.corder ELSE P.ckeys IN
   [D EXCEPT !.eorder = eo, !.corder = co,
      !.elements = [k \in {eo[i] : i \in 1..Len(eo)} |-> NormElem(P.elements[k], P.s.coordinates = "bT")],
      !.conns = [k \in {co[i] : i \in 1..Len(co)} |-> NormConn(P.conns[k])],
      !.s.coordinates = IF P.ekeys # <<>> THEN P.s.coordinates ELSE "bF"]
NormInc(P, D) ==
   LET io == IF P.iorder # <<>> THEN P.iorder ELSE P.ikeys IN
   [D EXCEPT !.iorder = io, !.incons = [k \in {io[i] : i \in 1..Len(io)} |-> NormIncon(P.incons[k])]]
NormGener(P, D) == [D EXCEPT !.gener = [i \in 1..Len(P.gener) |-> NormGen(P.gener[i])]]

NormHead(P) ==
   LET ro == CompleteOrder(P.rorder, P.rkeys)
       ic == TrimNone(StoreAll(P.default.ic, F20))
       out == P.outfmt # None \/ P.outvars # <<>> IN
   [EmptyDeck EXCEPT
      !.title = P.title, !.tform = IF Len(P.title) = 1 THEN "str" ELSE "list",
      !.s = [n_component |-> IF IsMulti(P) THEN "i" \o ToString(MultiNK(P)) ELSE None,
             n_phase |-> IF IsMulti(P) THEN "i" \o ToString(MultiNPH(P)) ELSE None,
             n_component_mass |-> IF IsMulti(P) /\ IsSet(P.s.n_component_mass) THEN P.s.n_component_mass ELSE None,
             isothermal |-> IF IsMulti(P) THEN P.s.isothermal ELSE "bF",
             start |-> P.s.start, nover |-> P.s.nover, coordinates |-> "bF"],
      !.rorder = ro,
      !.rocks = [n \in DOMAIN P.rocks |-> NormRock(P, P.rocks[n])],
      !.default = [EmptyRock EXCEPT !.ic = ic, !.rp = NormModel(P.default.rp, F10c),
                                    !.cp = NormModel(P.default.cp, F10c)],
      !.flac = IF P.hasflac = "0" THEN EmptyDict
               ELSE Prune([creep |-> IF P.flac.creep = "bT" THEN "bT" ELSE "bF",
                           porosity_model |-> P.flac.porosity_model, version |-> P.flac.version]),
      !.solver = IF DOMAIN P.solver = {} THEN EmptyDict
                 ELSE LET d == Overlay(SolverDefault, P.solver) IN
                      Prune([d EXCEPT !["rel_iter_max"] = Stored(@, F10e), !["eps"] = Stored(@, F10e)]),
      !.opt = NormOpt(P.opt),
      !.tsteps = LET v == StoreAll(VVals(P.tsteps), F10e) IN
                 IF v = <<>> \/ AllNone(v) THEN <<>> ELSE AsV(v),
      !.mop = Prune(P.mop), !.momop = Prune(P.momop),
      !.selint = IF P.hassel = "1" THEN NormSelInt(P) ELSE EmptyDict,
      !.selfl = IF P.hassel = "1" THEN NormSel(P) ELSE <<>>,
      !.selform = IF P.hassel = "0" \/ Len(P.selfl) = 0 THEN "none" ELSE IF Len(P.selfl) = 1 THEN "1" ELSE "2",
      !.times = IF P.times = <<>> THEN <<>> ELSE AsV(StoreAll(VVals(P.times), F10e)),
      !.foft = P.foft, !.coft = P.coft, !.goft = P.goft,
      !.diff = [i \in 1..Len(P.diff) |-> FloatsAs(P.diff[i], F10c)],
      !.outfmt = P.outfmt,
      !.outvars = [i \in 1..Len(P.outvars) |->
                     [name |-> P.outvars[i].name, rows |-> NormOut(P.outvars[i].rows)]]]

Norm(P) ==
   CASE P.block = "mesh"  -> NormMesh(P, EmptyDeck)
     [] P.block = "incon" -> NormInc(P, EmptyDeck)
     [] P.block = "gener" -> NormGener(P, EmptyDeck)
     [] OTHER -> NormInc(P, NormMesh(P, NormGener(P, NormHead(P))))

-----------------------------------------------------------------------------
(* The reader.  R = [lines, pos, d, ll, bad, seen]: pos is the next line,  *)
(* d the deck so far, ll the requested label length (0: find out), bad the *)
(* layout complaints, seen the sequence of <<keyword, first line>>.        *)
LineAt(R, k) == IF k <= Len(R.lines) THEN R.lines[k] ELSE ""
AtEnd(R) == R.pos > Len(R.lines)
IsEndMark(line) == IsBlank(line) \/ StartsWith(line, "+++")

\* first line at or after p that ends a list block (Len+1 if none)
RECURSIVE EndOfList(_, _)
EndOfList(R, p) == IF p > Len(R.lines) THEN p ELSE IF IsEndMark(R.lines[p]) THEN p ELSE EndOfList(R, p + 1)

\* label length: five characters and the digits that follow them
RECURSIVE LLen(_, _)
LLen(line, n) == IF n < 9 /\ n < Len(line) /\ Ch(line, n + 1) \in Digits THEN LLen(line, n + 1) ELSE n
LabelLen(R, line) == IF R.ll # 0 THEN R.ll ELSE LLen(line, 5)

Complain(R, c) == [R EXCEPT !.bad = @ \cup c]
\* BAD fields, stray text in unused columns or beyond column 80
Check(line, lay, name) ==
   (IF ~NoBad(RecSeq(line, lay)) THEN {name \o "_not_a_number"} ELSE {})
   \cup (IF ~Clean(line, lay) THEN {name \o "_text_outside_fields"} ELSE {})

Model(line, lay) == LET r == Rec(line, lay) IN
   IF r["id"] = None THEN NoModel
   ELSE [id |-> r["id"], par |-> TrimNone([i \in 1..7 |-> r[Num8[i]]])]

RECURSIVE ReadRocks(_)
ReadRocks(R) ==
   LET line == LineAt(R, R.pos) IN
   IF R.pos > Len(R.lines) \/ IsBlank(line) THEN [R EXCEPT !.pos = @ + 1]
   ELSE LET r == Rec(line, ROCKS1)
            n == Body(r["name"])
            nad == IF r["nad"] = None THEN -1 ELSE IntVal(r["nad"])
            l2 == LineAt(R, R.pos + 1)
            r2 == IF nad >= 1 THEN Rec(l2, ROCKS2) ELSE EmptyDict
            per == <<r["per1"], r["per2"], r["per3"]>>
            rock == [EmptyRock EXCEPT
               !.s = Prune(Overlay(Restrict(r, {"density","porosity","conductivity","specific_heat"}), r2)),
               !.perm = IF IsDet(per) THEN (IF per[1] = None THEN <<>> ELSE <<"S", per[1]>>) ELSE <<"L">> \o per,
               !.rp = IF nad >= 2 THEN Model(LineAt(R, R.pos + 2), RPCAPR) ELSE NoModel,
               !.cp = IF nad >= 2 THEN Model(LineAt(R, R.pos + 3), RPCAPR) ELSE NoModel]
            bad == Check(line, ROCKS1, "ROCKS1")
                   \cup (IF nad >= 1 THEN Check(l2, ROCKS2, "ROCKS2") ELSE {})
                   \cup (IF nad >= 2 THEN Check(LineAt(R, R.pos + 2), RPCAPR, "ROCKS_RP")
                                          \cup Check(LineAt(R, R.pos + 3), RPCAPR, "ROCKS_CP") ELSE {})
        IN ReadRocks([R EXCEPT !.pos = @ + 1 + (IF nad >= 2 THEN 3 ELSE IF nad >= 1 THEN 1 ELSE 0),
                               !.d.rocks = Overlay(@, (n :> rock)),
                               !.d.rorder = Append(@, n),
                               !.bad = @ \cup bad \cup (IF n \in DOMAIN R.d.rocks THEN {"ROCKS_rock_twice"} ELSE {})])

RECURSIVE ReadFlacRocks(_, _)
ReadFlacRocks(R, k) ==
   IF k > Len(R.d.rorder) THEN R
   ELSE LET n == R.d.rorder[k] IN
        ReadFlacRocks([R EXCEPT !.pos = @ + 2,
            !.d.rocks[n].pm = Model(LineAt(R, R.pos), FLAC2),
            !.d.rocks[n].ep = Model(LineAt(R, R.pos + 1), FLAC3),
            !.bad = @ \cup Check(LineAt(R, R.pos), FLAC2, "FLAC2") \cup Check(LineAt(R, R.pos + 1), FLAC3, "FLAC3")], k + 1)
ReadFlac(R) ==
   LET r == Rec(LineAt(R, R.pos), FLAC1)
       fl == Prune([creep |-> IF r["creep"] \in {None, "i0"} THEN "bF" ELSE "bT",
                    porosity_model |-> r["porosity_model"], version |-> r["version"]])
   IN ReadFlacRocks([R EXCEPT !.pos = @ + 1, !.d.flac = fl,
                              !.bad = @ \cup Check(LineAt(R, R.pos), FLAC1, "FLAC1")], 1)

RECURSIVE ReadNums(_, _, _, _)
\* n numbers, in records of layout lay; [v, pos]
ReadNums(R, p, lay, n) ==
   IF n <= 0 \/ p > Len(R.lines) THEN [v |-> <<>>, p |-> p]
   ELSE LET s == RecSeq(R.lines[p], lay)
            rest == ReadNums(R, p + 1, lay, n - Len(lay))
        IN [v |-> SubSeq(s, 1, MinOf(n, Len(s))) \o rest.v, p |-> rest.p]
RECURSIVE CheckLines(_, _, _, _, _)
CheckLines(R, p, q, lay, name) ==
   IF p > q THEN {} ELSE Check(LineAt(R, p), lay, name) \cup CheckLines(R, p + 1, q, lay, name)

FlagChars(s) == [i \in 1..Len(s) |-> Ch(s, i)]
DigitFlags(v, n) ==     \* "S" field -> dict of the digit positions
   IF v = None THEN EmptyDict
   ELSE LET s == Body(v) IN
        [k \in {ToString(i) : i \in {j \in 1..MinOf(n, Len(s)) : Ch(s, j) \in Digits}} |-> "i" \o Ch(s, ToNat(k))]

ReadParam(R) ==
   LET p == R.pos
       r1 == Rec(LineAt(R, p), PARAM1)
       r2 == Rec(LineAt(R, p + 1), PARAM2)
       neg == r2["delten"] # None /\ StartsWith(r2["delten"], "f-")
       nrec == IF neg THEN LET v == r2["delten"] IN   \* -n as a float: digits and power of ten
                  ToNat(FDigs(v)) * (IF FExp(v) = 1 THEN 10 ELSE IF FExp(v) = 2 THEN 100 ELSE 1) ELSE 0
       ts == ReadNums(R, p + 2, TEN8, 8 * nrec)
       q == p + 2 + nrec
       r3 == Rec(LineAt(R, q), PARAM3)
       v4 == RecSeq(LineAt(R, q + 1), VAR4)
       more == q + 2 <= Len(R.lines) /\ NumericLine(LineAt(R, q + 2), VAR4)
       ic == TrimNone(v4 \o (IF more THEN RecSeq(LineAt(R, q + 2), VAR4) ELSE <<>>))
       opt == Prune(Overlay(Overlay(
                Restrict(r1, DOMAIN r1 \ {"mop"}), Restrict(r2, DOMAIN r2 \ {"delten", "elst"})), r3))
       tv == SelectSeq(ts.v, LAMBDA x : x # None)
       bad == Check(LineAt(R, p), PARAM1, "PARAM1") \cup Check(LineAt(R, p + 1), PARAM2, "PARAM2")
              \cup CheckLines(R, p + 2, q - 1, TEN8, "PARAM2n") \cup Check(LineAt(R, q), PARAM3, "PARAM3")
              \cup Check(LineAt(R, q + 1), VAR4, "PARAM4")
   IN [R EXCEPT !.pos = q + (IF more THEN 3 ELSE 2),
          !.d.opt = opt,
          !.d.mop = DigitFlags(r1["mop"], 24),
          !.d.tsteps = IF neg THEN (IF tv = <<>> THEN <<>> ELSE AsV(tv))
                       ELSE IF r2["delten"] = None THEN <<>> ELSE <<"S", r2["delten"]>>,
          !.d.default.ic = ic, !.bad = @ \cup bad]

RECURSIVE ReadRows(_, _, _, _)
ReadRows(R, p, lay, n) == IF n <= 0 THEN <<>>
                          ELSE <<TrimNone(RecSeq(LineAt(R, p), lay))>> \o ReadRows(R, p + 1, lay, n - 1)
ReadSelec(R) ==
   LET r == Rec(LineAt(R, R.pos), SELEC1)
       n == IF r["1"] = None THEN 0 ELSE IntVal(r["1"])
   IN [R EXCEPT !.pos = @ + 1 + n, !.d.selint = Prune(r),
        !.d.selfl = ReadRows(R, R.pos + 1, SELEC2, n),
        !.d.selform = IF n = 0 THEN "none" ELSE IF n = 1 THEN "1" ELSE "2",
        !.bad = @ \cup Check(LineAt(R, R.pos), SELEC1, "SELEC1") \cup CheckLines(R, R.pos + 1, R.pos + n, SELEC2, "SELEC2")]

\* is the record after a list of primary variables a continuation of it?
HasMore(R, p) == p <= Len(R.lines) /\ ~IsEndMark(R.lines[p]) /\ NumericLine(R.lines[p], VAR4)

RECURSIVE ReadIndom(_)
ReadIndom(R) ==
   LET line == LineAt(R, R.pos) IN
   IF R.pos > Len(R.lines) \/ IsBlank(line) THEN [R EXCEPT !.pos = @ + 1]
   ELSE LET n == Strip(Cols(line, 1, 5))
            more == HasMore(R, R.pos + 2)
            v == RecSeq(LineAt(R, R.pos + 1), VAR4) \o (IF more THEN RecSeq(LineAt(R, R.pos + 2), VAR4) ELSE <<>>)
        IN ReadIndom([R EXCEPT !.pos = @ + (IF more THEN 3 ELSE 2),
               !.d.rocks = IF n \in DOMAIN @ THEN [@ EXCEPT ![n].ic = TrimNone(v)] ELSE @,
               !.bad = @ \cup Check(line, NAME5, "INDOM1") \cup Check(LineAt(R, R.pos + 1), VAR4, "INDOM2")
                         \cup (IF n \notin DOMAIN R.d.rocks THEN {"INDOM_unknown_rock"}
                             ELSE IF R.d.rocks[n].ic # <<>> THEN {"INDOM_rock_twice"} ELSE {})])

ReadTimes(R) ==
   LET r == Rec(LineAt(R, R.pos), TIMES1)
       n == IF r["iti"] = None THEN 0 ELSE IntVal(r["iti"])
       t == ReadNums(R, R.pos + 1, TEN8, n)
   IN [R EXCEPT !.pos = t.p, !.d.times = IF n = 0 THEN <<>> ELSE AsV(t.v),
         !.bad = @ \cup Check(LineAt(R, R.pos), TIMES1, "TIMES1") \cup CheckLines(R, R.pos + 1, t.p - 1, TEN8, "TIMES2")
                   \cup (IF InSeq(None, t.v) THEN {"TIMES_count"} ELSE {})]

RECURSIVE ReadNames(_, _)
ReadNames(R, p) == IF p > Len(R.lines) \/ IsBlank(R.lines[p]) THEN <<>>
                   ELSE <<RStrip(R.lines[p])>> \o ReadNames(R, p + 1)

\* generators of one label are grouped, in order of first appearance
GenPut(gs, label, comp) ==
   LET at == {i \in 1..Len(gs) : gs[i].label = label} IN
   IF at = {} THEN Append(gs, [label |-> label, comps |-> <<comp>>])
   ELSE LET i == CHOOSE i \in at : TRUE IN [gs EXCEPT ![i].comps = Append(@, comp)]
RECURSIVE ReadGener(_, _, _)
ReadGener(R, L, acc) ==
   LET line == LineAt(R, R.pos) IN
   IF R.pos > Len(R.lines) \/ IsBlank(line) THEN
      [R EXCEPT !.pos = @ + 1, !.d.gener = [i \in 1..Len(acc) |->
          [label |-> acc[i].label,
           f |-> LET keys == {k \in GenKeys : \E j \in 1..Len(acc[i].comps) : acc[i].comps[j][k] # <<"S", None>>}
                 IN [k \in keys |-> [j \in 1..Len(acc[i].comps) |-> acc[i].comps[j][k]]]]]]
   ELSE LET r == Rec(line, GENER1(L))
            lt == IF r["ltab"] = None THEN 0 ELSE IntVal(r["ltab"])
            tab == lt > 1 /\ r["type"] # "sDELV"      \* (DELV: LTAB counts layers)
            t1 == ReadNums(R, R.pos + 1, TABLE4, IF tab THEN lt ELSE 0)
            t2 == ReadNums(R, t1.p, TABLE4, IF tab THEN lt ELSE 0)
            t3 == ReadNums(R, t2.p, TABLE4, IF tab /\ r["itab"] # None THEN lt ELSE 0)
            comp == [name |-> <<"S", r["name"]>>, nseq |-> <<"S", r["nseq"]>>, nadd |-> <<"S", r["nadd"]>>,
                     nads |-> <<"S", r["nads"]>>, type |-> <<"S", r["type"]>>,
                     layer_thickness |-> <<"S", r["hg"]>>,
                     times |-> IF tab THEN <<"L">> \o t1.v ELSE <<"S", None>>,
                     rates |-> IF tab THEN <<"L">> \o t2.v ELSE <<"S", r["gx"]>>,
                     specific_enthalpy |-> IF ~tab THEN <<"S", r["ex"]>>
                                           ELSE IF r["itab"] # None THEN <<"L">> \o t3.v ELSE <<"S", None>>]
            bad == Check(line, GENER1(L), "GENER1") \cup CheckLines(R, R.pos + 1, t3.p - 1, TABLE4, "GENER2")
                   \cup (IF tab /\ (InSeq(None, t1.v) \/ InSeq(None, t2.v) \/ InSeq(None, t3.v)) THEN {"GENER_table_length"} ELSE {})
        IN ReadGener([R EXCEPT !.pos = t3.p, !.bad = @ \cup bad], L, GenPut(acc, Body(r["label"]), comp))

RECURSIVE ReadDiffu(_)
ReadDiffu(R) ==
   LET line == LineAt(R, R.pos) lay == Row(Num8, 1, 10, 3) IN
   IF R.pos > Len(R.lines) THEN R
   ELSE IF IsBlank(line) THEN [R EXCEPT !.pos = @ + 1]
   ELSE IF ~NumericLine(line, lay) THEN R              \* the next block: not consumed
   ELSE ReadDiffu([R EXCEPT !.pos = @ + 1, !.d.diff = Append(@, TrimNone(RecSeq(line, lay))),
                            !.bad = @ \cup Check(line, lay, "DIFFU")])

VarPut(vs, name, row) ==
   LET at == {i \in 1..Len(vs) : vs[i].name = name} IN
   IF at = {} THEN Append(vs, [name |-> name, rows |-> <<row>>])
   ELSE LET i == CHOOSE i \in at : TRUE IN [vs EXCEPT ![i].rows = Append(@, row)]
LowerMap == "ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz"
LowerCh(c) == LET i == Find(LowerMap, {c}, 1) IN IF i = 0 \/ i > 26 THEN c ELSE Ch(LowerMap, i + 26)
UpperCh(c) == LET i == Find(LowerMap, {c}, 1) IN IF i <= 26 THEN c ELSE Ch(LowerMap, i - 26)
RECURSIVE Lower(_), Upper(_)
Lower(s) == IF s = "" THEN "" ELSE LowerCh(Ch(s, 1)) \o Lower(SubSeq(s, 2, Len(s)))
Upper(s) == IF s = "" THEN "" ELSE UpperCh(Ch(s, 1)) \o Upper(SubSeq(s, 2, Len(s)))

RECURSIVE ReadVars(_, _)
ReadVars(R, n) ==
   IF n <= 0 THEN R
   ELSE LET r == Rec(LineAt(R, R.pos), OUTPU3) IN
        ReadVars([R EXCEPT !.pos = @ + 1,
             !.d.outvars = VarPut(@, Lower(Body(r["name"])), TrimNone(<<r["1"], r["2"]>>)),
             !.bad = @ \cup Check(LineAt(R, R.pos), OUTPU3, "OUTPU3")], n - 1)
ReadOutpu(R) ==
   LET l1 == Strip(LineAt(R, R.pos))
       fmt == l1 # "" /\ ~AllDigits(l1) /\ Keyword(l1) = ""
       R1 == IF fmt THEN [R EXCEPT !.pos = @ + 1, !.d.outfmt = "s" \o l1] ELSE R
       l2 == Strip(LineAt(R1, R1.pos))
   IN IF AllDigits(l2) THEN ReadVars([R1 EXCEPT !.pos = @ + 1], ToNat(l2)) ELSE R1

MatOf(v) == IF v = None THEN "s" ELSE IF AllDigits(Body(v)) THEN "i" \o ToString(ToNat(Body(v))) ELSE v
RECURSIVE ReadEleme(_, _)
ReadEleme(R, L) ==
   LET line == LineAt(R, R.pos) IN
   IF R.pos > Len(R.lines) \/ IsBlank(line) THEN [R EXCEPT !.pos = @ + 1]
   ELSE LET r == Rec(line, ELEME1(L))
            e == [s |-> Prune([nseq |-> r["nseq"], nadd |-> r["nadd"], material |-> MatOf(r["material"]),
                        volume |-> r["volume"], heat_exchange_area |-> r["heat_exchange_area"],
                        permeability_modifier |-> r["permeability_modifier"]]),
                  center |-> <<r["x"], r["y"], r["z"]>>]
            k == Body(r["label"])
        IN ReadEleme([R EXCEPT !.pos = @ + 1, !.d.elements = Overlay(@, (k :> e)),
              !.d.eorder = Append(@, k), !.bad = @ \cup Check(line, ELEME1(L), "ELEME")
                  \* a number counts as one only when it is at the right end of its field
                  \cup (IF IsInt(MatOf(r["material"])) /\ (Len(Cols(line, 16, 5)) < 5 \/ Ch(Cols(line, 16, 5), 5) = " ") THEN {"ELEME_material_number"} ELSE {})], L)

RECURSIVE ReadCoord(_, _)
ReadCoord(R, k) ==
   LET line == LineAt(R, R.pos) IN
   IF R.pos > Len(R.lines) \/ IsBlank(line) THEN
        [R EXCEPT !.pos = @ + 1, !.bad = @ \cup (IF k # Len(R.d.eorder) + 1 THEN {"COORD_count"} ELSE {})]
   ELSE ReadCoord([R EXCEPT !.pos = @ + 1,
           !.d.elements = IF k > Len(R.d.eorder) THEN @ ELSE [@ EXCEPT ![R.d.eorder[k]].center = RecSeq(line, COORD1)],
           !.bad = @ \cup Check(line, COORD1, "COORD")], k + 1)

RECURSIVE ReadConne(_, _)
ReadConne(R, L) ==
   LET line == LineAt(R, R.pos) IN
   IF R.pos > Len(R.lines) \/ IsEndMark(line) THEN [R EXCEPT !.pos = @ + 1]
   ELSE LET r == Rec(line, CONNE1(L))
            c == [s |-> Prune([nseq |-> r["nseq"], permeability_direction |-> r["permeability_direction"],
                        interface_area |-> r["interface_area"], gravity_cosine_angle |-> r["gravity_cosine_angle"],
                        radiant_emittance_factor |-> r["radiant_emittance_factor"]]),
                  nadd |-> <<r["nad1"], r["nad2"]>>, dist |-> <<r["d1"], r["d2"]>>]
            k == Body(r["label"])
        IN ReadConne([R EXCEPT !.pos = @ + 1, !.d.conns = Overlay(@, (k :> c)),
              !.d.corder = Append(@, k), !.bad = @ \cup Check(line, CONNE1(L), "CONNE")], L)

RECURSIVE ReadIncon(_, _)
ReadIncon(R, L) ==
   LET line == LineAt(R, R.pos) IN
   IF R.pos > Len(R.lines) \/ IsEndMark(line) THEN [R EXCEPT !.pos = @ + 1]
   ELSE LET r == Rec(line, INCON1(L))
            more == HasMore(R, R.pos + 2)
            v == RecSeq(LineAt(R, R.pos + 1), VAR4) \o (IF more THEN RecSeq(LineAt(R, R.pos + 2), VAR4) ELSE <<>>)
            c == [porosity |-> r["porosity"], userx |-> TrimNone(<<r["u1"], r["u2"], r["u3"], r["u4"], r["u5"]>>),
                  values |-> TrimNone(v)]
            k == Body(r["label"])
        IN ReadIncon([R EXCEPT !.pos = @ + (IF more THEN 3 ELSE 2), !.d.incons = Overlay(@, (k :> c)),
              !.d.iorder = Append(@, k), !.bad = @ \cup Check(line, INCON1(L), "INCON1")
                 \cup Check(LineAt(R, R.pos + 1), VAR4, "INCON2")], L)

\* one block: R.pos is on the line after its keyword
Block(R, kw) ==
   LET line == LineAt(R, R.pos) IN
   CASE kw = "ROCKS" -> ReadRocks(R)
     [] kw = "RPCAP" -> [R EXCEPT !.pos = @ + 2, !.d.default.rp = Model(line, RPCAPR),
                           !.d.default.cp = Model(LineAt(R, R.pos + 1), RPCAPR),
                           !.bad = @ \cup Check(line, RPCAPR, "RPCAP") \cup Check(LineAt(R, R.pos + 1), RPCAPR, "RPCAP")]
     [] kw = "FLAC" -> ReadFlac(R)
     [] kw = "MULTI" -> LET r == Rec(line, MULTI1) IN
           [R EXCEPT !.pos = @ + 1, !.d.s.n_component = r["NK"], !.d.s.n_phase = r["NPH"],
                     !.d.s.isothermal = IF r["NEQ"] = r["NK"] THEN "bT" ELSE "bF",
                     !.d.s.n_component_mass = r["NKIN"], !.multi = r, !.bad = @ \cup Check(line, MULTI1, "MULTI")]
     [] kw = "SOLVR" -> [R EXCEPT !.pos = @ + 1, !.d.solver = Prune(Rec(line, SOLVR1)),
                           !.bad = @ \cup Check(line, SOLVR1, "SOLVR")]
     [] kw = "START" -> [R EXCEPT !.d.s.start = "bT"]
     [] kw = "PARAM" -> ReadParam(R)
     [] kw = "SELEC" -> ReadSelec(R)
     [] kw = "INDOM" -> ReadIndom(R)
     [] kw = "MOMOP" -> [R EXCEPT !.pos = @ + 1, !.d.momop = DigitFlags(Rec(line, MOMOP1)["momop"], 40)]
     [] kw = "TIMES" -> ReadTimes(R)
     [] kw = "FOFT" -> LET n == ReadNames(R, R.pos) IN [R EXCEPT !.pos = @ + Len(n) + 1, !.d.foft = n]
     [] kw = "COFT" -> LET n == ReadNames(R, R.pos) IN [R EXCEPT !.pos = @ + Len(n) + 1, !.d.coft = n]
     [] kw = "GOFT" -> LET n == ReadNames(R, R.pos) IN [R EXCEPT !.pos = @ + Len(n) + 1, !.d.goft = n]
     [] kw = "GENER" -> ReadGener(R, LabelLen(R, line), <<>>)
     [] kw = "DIFFU" -> ReadDiffu(R)
     [] kw = "OUTPU" -> ReadOutpu(R)
     [] kw = "ELEME" -> ReadEleme([R EXCEPT !.d.s.coordinates = "bF"], LabelLen(R, line))
     [] kw = "COORD" -> ReadCoord([R EXCEPT !.d.s.coordinates = "bT"], 1)
     [] kw = "CONNE" -> ReadConne(R, LabelLen(R, line))
     [] kw = "INCON" -> ReadIncon(R, LabelLen(R, line))
     [] kw = "NOVER" -> [R EXCEPT !.d.s.nover = "bT"]
     [] OTHER -> [R EXCEPT !.pos = Len(R.lines) + 1]

NoMulti == [NK |-> None, NEQ |-> None, NPH |-> None, NB |-> None, NKIN |-> None]
RECURSIVE TitleEnd(_, _)
TitleEnd(lines, k) == IF k > Len(lines) \/ Keyword(lines[k]) # "" THEN k ELSE TitleEnd(lines, k + 1)
\* files made of bare ELEME/CONNE/INCON/GENER blocks have no title
Bare == {"ROCKS","ELEME","CONNE","INCON","GENER"}
Start(lines, ll) ==
   LET R == [lines |-> lines, pos |-> 1, d |-> EmptyDeck, ll |-> ll, bad |-> {}, seen |-> <<>>, multi |-> NoMulti] IN
   IF Keyword(IF lines = <<>> THEN "" ELSE lines[1]) \in Bare THEN R
   ELSE LET k == IF lines = <<>> THEN 1 ELSE TitleEnd(lines, 2)
            t == [i \in 1..(k - 1) |-> Strip(lines[i])] IN
        [R EXCEPT !.pos = k, !.d.title = t, !.d.tform = IF Len(t) = 1 THEN "str" ELSE "list", !.d.s.start = "bF"]

\* one step: a block, or a line that belongs to none
Step(R) ==
   LET kw == Keyword(R.lines[R.pos]) IN
   IF kw = "" THEN [R EXCEPT !.pos = @ + 1]
   ELSE LET Q == Block([R EXCEPT !.pos = @ + 1, !.seen = Append(@, <<kw, R.pos>>)], kw)
        IN Q
RECURSIVE RunAll(_)
RunAll(R) == IF AtEnd(R) THEN R ELSE RunAll(Step(R))
Parse(lines, ll) == RunAll(Start(lines, ll))

-----------------------------------------------------------------------------
(* What else a written deck must satisfy.                                  *)
BlockRank == [k \in Keywords |->
   CASE k = "ROCKS" -> 1 [] k = "RPCAP" -> 2 [] k = "FLAC" -> 3 [] k = "INDOM" -> 3 [] k = "ELEME" -> 1
     [] k = "COORD" -> 2 [] k = "ENDCY" -> 100 [] OTHER -> 50]
SeenKeys(R) == [i \in 1..Len(R.seen) |-> R.seen[i][1]]
Before(s, a, b) == \A i, j \in 1..Len(s) : s[i] = a /\ s[j] = b => i < j
Unique(s) == \A i, j \in 1..Len(s) : s[i] = s[j] => i = j
ListBlocks == {"ROCKS","FLAC","INDOM","FOFT","COFT","GOFT","GENER","ELEME","COORD","CONNE","INCON"}
ExpectedBlocks(P) ==
   LET mesh == (IF P.ekeys # <<>> THEN {"ELEME"} \cup (IF P.s.coordinates = "bT" THEN {"COORD"} ELSE {}) ELSE {})
               \cup (IF P.ckeys # <<>> THEN {"CONNE"} ELSE {})
       inc == IF P.ikeys # <<>> THEN {"INCON"} ELSE {}
       gen == IF P.gener # <<>> THEN {"GENER"} ELSE {}
       If(c, k) == IF c THEN {k} ELSE {} IN
   CASE P.block = "mesh" -> mesh
     [] P.block = "incon" -> inc
     [] P.block = "gener" -> gen
     [] OTHER -> mesh \cup inc \cup gen \cup {"ROCKS", "PARAM", "ENDCY"}
         \cup If(P.default.rp.id # None \/ P.default.cp.id # None, "RPCAP") \cup If(P.hasflac = "1", "FLAC")
         \cup If(IsMulti(P), "MULTI") \cup If(DOMAIN P.solver # {}, "SOLVR") \cup If(P.s.start = "bT", "START")
         \cup If(P.hassel = "1", "SELEC") \cup If(IsIndom(P), "INDOM") \cup If(DOMAIN P.momop # {}, "MOMOP")
         \cup If(P.times # <<>>, "TIMES") \cup If(P.foft # <<>>, "FOFT") \cup If(P.coft # <<>>, "COFT")
         \cup If(P.goft # <<>>, "GOFT") \cup If(P.hasdiff = "1", "DIFFU")
         \cup If(P.outfmt # None \/ P.outvars # <<>>, "OUTPU") \cup If(P.s.nover = "bT", "NOVER")

LayoutClauses(P, lines, R) ==
   LET ks == SeenKeys(R)
       If(c, k) == IF c THEN {k} ELSE {} IN
   R.bad
   \cup If(~(\A i \in 1..Len(lines) : Len(lines[i]) <= 80), "record_over_80_columns")
   \cup If(~Unique(ks), "block_twice")
   \cup If({ks[i] : i \in 1..Len(ks)} # ExpectedBlocks(P), "blocks_present")
   \cup If(~Before(ks, "ROCKS", "FLAC") \/ ~Before(ks, "ROCKS", "INDOM") \/ ~Before(ks, "ELEME", "COORD"), "block_order")
   \cup If(P.block = "all" /\ (ks = <<>> \/ ks[Len(ks)] # "ENDCY"), "endcy_last")
   \cup If(IsMulti(P) /\ P.block = "all" /\
           (R.multi["NEQ"] # "i" \o ToString(MultiNEQ(P)) \/ R.multi["NB"] # "i" \o ToString(MultiNB(P))), "multi_counters")
   \* every list block is closed by a blank record before the next keyword
   \cup If(~(\A i \in 1..Len(R.seen) : R.seen[i][1] \in ListBlocks =>
              LET last == IF i < Len(R.seen) THEN R.seen[i + 1][2] - 1 ELSE Len(lines)
              IN last > R.seen[i][2] /\ IsBlank(lines[last])), "list_block_not_terminated")

\* names of the parts of the deck on which two dictionaries differ
Diff(a, b) == {k \in DOMAIN EmptyDeck : a[k] # b[k]}
=============================================================================
