-------------------------------- MODULE Registry --------------------------------
(***************************************************************************)
(* The registries of file formats.  A registry maps extensions to names of *)
(* formats and names to a reader and a writer.  There is one for input     *)
(* files, one for outputs and one for meshes.                              *)
(***************************************************************************)
EXTENDS Tables, TLC
LowerOf == [c \in {"A","B","C","D","E","F","G","H","I","J","K","L","M","N","O","P","Q","R","S","T","U","V","W","X","Y","Z"} |->
   CASE c = "A" -> "a" [] c = "B" -> "b" [] c = "C" -> "c" [] c = "D" -> "d" [] c = "E" -> "e" [] c = "F" -> "f" [] c = "G" -> "g" [] c = "H" -> "h"
     [] c = "I" -> "i" [] c = "J" -> "j" [] c = "K" -> "k" [] c = "L" -> "l" [] c = "M" -> "m" [] c = "N" -> "n" [] c = "O" -> "o" [] c = "P" -> "p"
     [] c = "Q" -> "q" [] c = "R" -> "r" [] c = "S" -> "s" [] c = "T" -> "t" [] c = "U" -> "u" [] c = "V" -> "v" [] c = "W" -> "w" [] c = "X" -> "x"
     [] c = "Y" -> "y" [] OTHER -> "z"]
RECURSIVE Lower(_), LastOf(_, _, _), Lead(_, _)
Lower(s) == IF s = "" THEN "" ELSE (IF Ch(s, 1) \in DOMAIN LowerOf THEN LowerOf[Ch(s, 1)] ELSE Ch(s, 1)) \o Lower(SubSeq(s, 2, Len(s)))
LastOf(s, c, i) == IF i = 0 THEN 0 ELSE IF Ch(s, i) = c THEN i ELSE LastOf(s, c, i - 1)
Lead(s, i) == IF i <= Len(s) /\ Ch(s, i) = "." THEN Lead(s, i + 1) ELSE i
\* the extension of a file name in lower case, with its dot: from the last dot of the
\* last part of the path, dots at its beginning aside
Extension(path) ==
   LET b == Drop(path, LastOf(path, "/", Len(path)))
       k == LastOf(b, ".", Len(b))
   IN IF k >= Lead(b, 1) /\ k > 1 THEN Lower(SubSeq(b, k, Len(b))) ELSE ""
\* ---- states ------------------------------------------------------------------
Base(kind) ==
   CASE kind = "input" -> [ext |-> (".json" :> "json"), rd |-> [x \in {"tough", "json"} |-> "own"], wr |-> [x \in {"tough", "json"} |-> "own"]]
     [] kind = "output" -> [ext |-> (".csv" :> "csv" @@ ".tec" :> "tecplot"), rd |-> [x \in {"tough", "csv", "tecplot", "petrasim", "save"} |-> "own"],
                            wr |-> [x \in {"csv", "tecplot", "petrasim"} |-> "own"]]
     [] OTHER -> [ext |-> (".dat" :> "tecplot" @@ ".tec" :> "tecplot" @@ ".f3grid" :> "flac3d" @@ ".pickle" :> "pickle" @@ ".pkl" :> "pickle"),
                  rd |-> [x \in {"tough", "pickle", "flac3d", "tecplot", "avsucd"} |-> "own"], wr |-> [x \in {"tough", "pickle", "flac3d", "tecplot", "avsucd"} |-> "own"]]
\* a registration: name, extensions, reader and writer ("" for none)
Registered(st, r) ==
   [ext |-> Overlay(st.ext, [x \in {Lower(e) : e \in r.exts} |-> r.name]),
    rd |-> IF r.rd = "" THEN st.rd ELSE Overlay(st.rd, r.name :> r.rd),
    wr |-> IF r.wr = "" THEN st.wr ELSE Overlay(st.wr, r.name :> r.wr)]
\* ---- resolution ----------------------------------------------------------------
Reject == "reject"
ByName(st, path, fmt) == IF fmt # "" THEN fmt ELSE Get(st.ext, Extension(path), "")
\* the format of a call; content: what the file announces (outputs only)
Format(kind, op, st, path, fmt, content) ==
   IF kind = "output" /\ op = "read" THEN content
   ELSE LET f == ByName(st, path, fmt) IN IF kind = "input" /\ f = "" THEN "tough" ELSE f
\* the mesh formats of meshio stand behind the registry
Behind == [x \in {"vtk", "vtu", "xdmf", "gmsh", "med"} |-> "meshio"]
BehindExt == (".vtk" :> "vtk" @@ ".vtu" :> "vtu" @@ ".xdmf" :> "xdmf")
Handler(kind, op, st, path, fmt, content) ==
   LET f == Format(kind, op, st, path, fmt, content) m == IF op = "read" THEN st.rd ELSE st.wr
   IN IF f \in DOMAIN m THEN m[f]
      ELSE IF kind = "mesh" /\ (IF fmt # "" THEN fmt \in DOMAIN Behind ELSE Extension(path) \in DOMAIN BehindExt) THEN "meshio"
      ELSE Reject
=============================================================================
