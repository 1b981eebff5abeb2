-------------------------------- MODULE Text --------------------------------
(***************************************************************************)
(* Text of fixed-column records, and numbers as canonical decimal strings. *)
(*                                                                         *)
(* TLC integers are 32 bits and have no fractions, so every number that    *)
(* crosses the boundary between the specification and the library is a     *)
(* STRING:  "f<sign><digits>E<exp>"  (a float: digits without leading or   *)
(* trailing zeros; zero is "f0E0"),  "i<sign><digits>" (an integer),       *)
(* "s<text>" (a string), "bT"/"bF" (a boolean), "~" (None).                *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC

None == "~"
Ch(s, i) == SubSeq(s, i, i)
Digits == {"0","1","2","3","4","5","6","7","8","9"}
DigVal == [c \in Digits |->
    CASE c = "0" -> 0 [] c = "1" -> 1 [] c = "2" -> 2 [] c = "3" -> 3
      [] c = "4" -> 4 [] c = "5" -> 5 [] c = "6" -> 6 [] c = "7" -> 7
      [] c = "8" -> 8 [] OTHER -> 9]

MinOf(a, b) == IF a < b THEN a ELSE b
MaxOf(a, b) == IF a > b THEN a ELSE b

RECURSIVE FirstNB(_, _), LastNB(_, _)
FirstNB(s, i) == IF i > Len(s) THEN i
                 ELSE IF Ch(s, i) = " " THEN FirstNB(s, i + 1) ELSE i
LastNB(s, i)  == IF i = 0 THEN 0
                 ELSE IF Ch(s, i) = " " THEN LastNB(s, i - 1) ELSE i
RStrip(s) == SubSeq(s, 1, LastNB(s, Len(s)))
LStrip(s) == SubSeq(s, FirstNB(s, 1), Len(s))
Strip(s)  == SubSeq(s, FirstNB(s, 1), LastNB(s, Len(s)))
IsBlank(s) == FirstNB(s, 1) > Len(s)

\* columns a .. a+n-1 of a record (1-based); a short record is blank-extended
Cols(s, a, n) == IF a > Len(s) THEN "" ELSE SubSeq(s, a, MinOf(a + n - 1, Len(s)))
StartsWith(s, p) == Len(s) >= Len(p) /\ SubSeq(s, 1, Len(p)) = p

AllDigits(s) == Len(s) > 0 /\ \A i \in 1..Len(s) : Ch(s, i) \in Digits

RECURSIVE NatUpTo(_, _)
NatUpTo(s, n) == IF n = 0 THEN 0 ELSE 10 * NatUpTo(s, n - 1) + DigVal[Ch(s, n)]
ToNat(s) == NatUpTo(s, Len(s))
ToIntS(s) == IF StartsWith(s, "-") THEN -ToNat(SubSeq(s, 2, Len(s)))
             ELSE IF StartsWith(s, "+") THEN ToNat(SubSeq(s, 2, Len(s))) ELSE ToNat(s)

RECURSIVE Rep(_, _)
Rep(c, n) == IF n <= 0 THEN "" ELSE c \o Rep(c, n - 1)
PadL(s, n) == Rep(" ", n - Len(s)) \o s
PadR(s, n) == s \o Rep(" ", n - Len(s))

RECURSIVE LeadZ(_, _), TrailZ(_, _)
LeadZ(s, i) == IF i > Len(s) THEN i ELSE IF Ch(s, i) = "0" THEN LeadZ(s, i + 1) ELSE i
TrailZ(s, i) == IF i = 0 THEN 0 ELSE IF Ch(s, i) = "0" THEN TrailZ(s, i - 1) ELSE i

\* canonical float from sign, digit string and power of ten of its last digit
MkFloat(sg, ds, e) ==
    LET a == LeadZ(ds, 1)
        b == TrailZ(ds, Len(ds))
    IN IF a > Len(ds) THEN "f0E0"
       ELSE "f" \o sg \o SubSeq(ds, a, b) \o "E" \o ToString(e + Len(ds) - b)

\* position of the first character of set C in s at or after i (0: none)
RECURSIVE Find(_, _, _)
Find(s, C, i) == IF i > Len(s) THEN 0 ELSE IF Ch(s, i) \in C THEN i ELSE Find(s, C, i + 1)

(* Text of a number as a Fortran formatted read (and str2float) sees it:   *)
(* [sign] digits [. digits] [ (e|E|d|D)[sign]digits | sign digits ]        *)
(* "BAD" when the text is not a number.                                    *)
FloatText(t) ==
    LET sg == IF StartsWith(t, "-") THEN "-" ELSE ""
        u  == IF StartsWith(t, "-") \/ StartsWith(t, "+") THEN SubSeq(t, 2, Len(t)) ELSE t
        p  == Find(u, {"e", "E", "d", "D"}, 1)
        q  == IF p # 0 THEN p ELSE Find(u, {"+", "-"}, 2)
        man == IF q = 0 THEN u ELSE SubSeq(u, 1, q - 1)
        exps == IF q = 0 THEN "0"
                ELSE IF p # 0 THEN SubSeq(u, q + 1, Len(u)) ELSE SubSeq(u, q, Len(u))
        expd == IF StartsWith(exps, "-") \/ StartsWith(exps, "+")
                THEN SubSeq(exps, 2, Len(exps)) ELSE exps
        dot == Find(man, {"."}, 1)
        ip == IF dot = 0 THEN man ELSE SubSeq(man, 1, dot - 1)
        fp == IF dot = 0 THEN "" ELSE SubSeq(man, dot + 1, Len(man))
    IN IF ~AllDigits(ip \o fp) \/ ~AllDigits(expd) \/ Len(expd) > 4 THEN "BAD"
       ELSE MkFloat(sg, ip \o fp, ToIntS(exps) - Len(fp))

\* integer text; written with %g a whole number prints as an integer
IntText(t) ==
    LET u == IF StartsWith(t, "-") \/ StartsWith(t, "+") THEN SubSeq(t, 2, Len(t)) ELSE t
    IN IF ~AllDigits(u) THEN "BAD" ELSE "i" \o ToString(ToIntS(t))

IsInt(v)   == StartsWith(v, "i")
IsFloat(v) == StartsWith(v, "f")
IsStr(v)   == StartsWith(v, "s")
Body(v)    == SubSeq(v, 2, Len(v))
IntVal(v)  == ToIntS(Body(v))

FSign(v) == IF Ch(v, 2) = "-" THEN "-" ELSE ""
FEPos(v) == Find(v, {"E"}, 2)
FDigs(v) == SubSeq(v, IF Ch(v, 2) = "-" THEN 3 ELSE 2, FEPos(v) - 1)
FExp(v)  == ToIntS(SubSeq(v, FEPos(v) + 1, Len(v)))

\* number value as a float, whatever it was given as
AsFloat(v) == IF IsInt(v)
              THEN LET b == Body(v) IN
                   IF StartsWith(b, "-") THEN MkFloat("-", SubSeq(b, 2, Len(b)), 0)
                   ELSE MkFloat("", b, 0)
              ELSE v

\* d.ddd..e+XX with p decimals; the digits of v must fit (p + 1 of them)
RenderE(v, p) ==
    LET d == FDigs(v)
        e == IF v = "f0E0" THEN 0 ELSE FExp(v) + Len(d) - 1
        dd == PadR(d, p + 1)
        z == [i \in 1..(p + 1) |-> IF Ch(dd, i) = " " THEN "0" ELSE Ch(dd, i)]
        RECURSIVE Cat(_, _)
        Cat(i, n) == IF i > n THEN "" ELSE z[i] \o Cat(i + 1, n)
        ae == IF e < 0 THEN -e ELSE e
    IN FSign(v) \o z[1] \o "." \o Cat(2, p + 1) \o "e"
       \o (IF e < 0 THEN "-" ELSE "+") \o (IF ae < 10 THEN "0" ELSE "") \o ToString(ae)

RECURSIVE TrimNone(_)
TrimNone(s) == IF s = <<>> THEN <<>>
               ELSE IF s[Len(s)] = None THEN TrimNone(SubSeq(s, 1, Len(s) - 1)) ELSE s
AllNone(s) == \A i \in 1..Len(s) : s[i] = None

\* dictionaries are functions whose domain is a set of strings
Has(d, k) == k \in DOMAIN d
Get(d, k, dflt) == IF k \in DOMAIN d THEN d[k] ELSE dflt
EmptyDict == [x \in {} |-> x]
\* drop the keys whose value is None
Prune(d) == [k \in {x \in DOMAIN d : d[x] # None} |-> d[k]]
Overlay(base, top) == [k \in DOMAIN base \cup DOMAIN top |->
                         IF k \in DOMAIN top THEN top[k] ELSE base[k]]
=============================================================================
