------------------------------- MODULE RegistryMC -------------------------------
(* Every short history of registrations, then every call.                        *)
EXTENDS Registry, Json
CONSTANTS MaxReg, Emit
VARIABLES kind, st, hist, old
vars == <<kind, st, hist, old>>
Names == {"a", "B", "json", "csv", "tecplot"}
ExtSets == {{}, {".x"}, {".X", ".json"}, {".csv", ".tec"}, {".dat"}}
Paths == {"f", "f.x", "F.X", "d.x/f", ".x", "..X", "f.json", "f.JSON.x", "f.CSV", "f.tec", "f.Dat", "f.x.", "f.q"}
Formats == {"", "a", "B", "b", "json", "tough", "csv", "nope"}
Init == kind \in {"input", "output", "mesh"} /\ st = Base(kind) /\ hist = <<>> /\ old = st
Next == /\ Len(hist) < MaxReg
        /\ \E n \in Names, x \in ExtSets : LET i == ToString(Len(hist) + 1) r == [name |-> n, exts |-> x, rd |-> "r" \o i, wr |-> "w" \o i]
             IN hist' = Append(hist, r) /\ st' = Registered(st, r) /\ old' = st /\ UNCHANGED kind
Spec == Init /\ [][Next]_vars
Contents == {"csv", "tough", "a", "none"}
Op == {"read", "write"}
\* a registration affects its own name and extensions only
Frame == hist # <<>> =>
   LET r == hist[Len(hist)] IN
   \A p \in Paths, f \in Formats, o \in Op, k \in Contents :
      LET now == Handler(kind, o, st, p, f, k) was == Handler(kind, o, old, p, f, k) fm == Format(kind, o, st, p, f, k)
      IN (fm # r.name /\ (f # "" \/ Extension(p) \notin {Lower(e) : e \in r.exts})) => now = was
\* the latest registration of a name or of an extension wins
Latest == hist # <<>> =>
   LET r == hist[Len(hist)] IN
   /\ \A p \in Paths : kind # "output" => Handler(kind, "read", st, p, r.name, "none") = r.rd
   /\ \A p \in Paths : Handler(kind, "write", st, p, r.name, "none") = r.wr
   /\ \A p \in Paths : Extension(p) \in {Lower(e) : e \in r.exts} => Handler(kind, "write", st, p, "", "none") = r.wr
\* an explicit format does not look at the name of the file, an extension not at its case
Explicit == \A p, q \in Paths, f \in Formats \ {""}, o \in Op : Handler(kind, o, st, p, f, "csv") = Handler(kind, o, st, q, f, "csv")
Cases == \A o \in Op, k \in Contents : /\ Handler(kind, o, st, "f.x", "", k) = Handler(kind, o, st, "F.X", "", k)
                                       /\ Handler(kind, o, st, "f", "", k) = Handler(kind, o, st, ".x", "", k)
                                       /\ Handler(kind, o, st, "f", "", k) = Handler(kind, o, st, "d.x/f", "", k)
\* what nobody registered is rejected
Unknown == \A p \in Paths, o \in Op : (kind # "output" \/ o = "write") => Handler(kind, o, st, p, "nope", "none") = Reject
Emitted == (Emit = 1 /\ Len(hist) = MaxReg) => PrintT("@REG " \o ToJson([kind |-> kind, hist |-> hist]))
=============================================================================
