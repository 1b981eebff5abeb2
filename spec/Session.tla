------------------------------- MODULE Session -------------------------------
(***************************************************************************)
(* Calls of write_input and read_input in one process.  The only state is  *)
(* the disk: a valid write replaces the file by a content that is a        *)
(* function of (parameters, format, block); a rejected write and a read    *)
(* change nothing; arguments are never changed.  A content is identified   *)
(* by the write that produced it.                                          *)
(***************************************************************************)
EXTENDS Naturals, Sequences, TLC
CONSTANTS Valid, Invalid, Files     \* parameter sets by name
Absent == "absent"

Write(disk, f, p) == IF p \in Valid THEN [disk EXCEPT ![f] = p] ELSE disk
Read(disk, f) == disk
Outcome(op, p) == IF op = "write" /\ p \in Invalid THEN "rejected" ELSE "ok"
=============================================================================
