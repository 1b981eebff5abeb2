--------------------------------- MODULE Files ---------------------------------
(***************************************************************************)
(* The commands that edit input files.  A directory is a function from     *)
(* names to contents; a content is its text split at line ends, so a file  *)
(* that ends with a line end has a last part "", the empty file is <<"">>  *)
(* and <<>> is a file that does not exist.                                 *)
(***************************************************************************)
EXTENDS Text, SequencesExt
If(c, k) == IF c THEN {k} ELSE {}
Absent == <<>>
Exists(fs, n) == n \in DOMAIN fs /\ fs[n] # Absent
LinesOf(c) == IF c = Absent THEN <<>> ELSE IF c[Len(c)] = "" THEN SubSeq(c, 1, Len(c) - 1) ELSE c
ContentOf(ls) == Append(ls, "")
Up == [c \in {"a","b","c","d","e","f","g","h","i","j","k","l","m","n","o","p","q","r","s","t","u","v","w","x","y","z"} |->
   CASE c = "a" -> "A" [] c = "c" -> "C" [] c = "d" -> "D" [] c = "e" -> "E" [] c = "f" -> "F" [] c = "i" -> "I" [] c = "k" -> "K" [] c = "m" -> "M"
     [] c = "n" -> "N" [] c = "o" -> "O" [] c = "p" -> "P" [] c = "r" -> "R" [] c = "s" -> "S" [] c = "y" -> "Y" [] OTHER -> "?"]
RECURSIVE Upper(_)
Upper(s) == IF s = "" THEN "" ELSE (IF Ch(s, 1) \in DOMAIN Up THEN Up[Ch(s, 1)] ELSE Ch(s, 1)) \o Upper(SubSeq(s, 2, Len(s)))
Word(line) == Upper(Cols(line, 1, 5))
EndWord(line) == Word(line) \in {"ENDFI", "ENDCY"}
Blocks(ls) == {Word(ls[i]) : i \in 1..Len(ls)}
RECURSIVE FirstEnd(_, _), FirstPlus(_, _)
FirstEnd(ls, i) == IF i > Len(ls) THEN 0 ELSE IF EndWord(ls[i]) THEN i ELSE FirstEnd(ls, i + 1)
FirstPlus(ls, i) == IF i > Len(ls) THEN Len(ls) + 1 ELSE IF StartsWith(ls[i], "+++") THEN i ELSE FirstPlus(ls, i + 1)
\* ---- toughio-merge: deck, MESH and perhaps INCON of the same directory ---------------
DeckOk(ls) == {"ROCKS", "PARAM"} \subseteq Blocks(ls) /\ FirstEnd(ls, 1) # 0
StartOk(c, w) == LinesOf(c) # <<>> /\ StartsWith(LinesOf(c)[1], w)
MergeOk(fs, i) == /\ Exists(fs, i) /\ Exists(fs, "MESH")
                  /\ DeckOk(LinesOf(fs[i])) /\ StartOk(fs["MESH"], "ELEME")
                  /\ Exists(fs, "INCON") => StartOk(fs["INCON"], "INCON")
Merged(fs, i) ==
   LET d == fs[i] k == FirstEnd(LinesOf(d), 1)
   IN SubSeq(d, 1, k - 1) \o LinesOf(fs["MESH"]) \o (IF Exists(fs, "INCON") THEN LinesOf(fs["INCON"]) ELSE <<>>) \o SubSeq(d, k, Len(d))
\* ---- toughio-save2incon --------------------------------------------------------------
SaveOk(fs, i) == Exists(fs, i) /\ StartOk(fs[i], "INCON")
Incon(fs, i, reset) == IF reset THEN ContentOf(Append(SubSeq(LinesOf(fs[i]), 1, FirstPlus(LinesOf(fs[i]), 1) - 1), "")) ELSE fs[i]
\* ---- one command: op, in, out ---------------------------------------------------------
Accepted(fs, c) == c.out # "nowhere" /\ (CASE c.op = "merge" -> MergeOk(fs, c.i) [] c.op = "co2tab" -> TRUE [] OTHER -> SaveOk(fs, c.i))
After(fs, c) == IF ~Accepted(fs, c) THEN fs
                ELSE [fs EXCEPT ![c.out] = CASE c.op = "merge" -> Merged(fs, c.i) [] c.op = "incon" -> Incon(fs, c.i, FALSE) [] c.op = "reset" -> Incon(fs, c.i, TRUE)]
=============================================================================
