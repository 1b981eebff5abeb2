------------------------------ MODULE LabelsMC ------------------------------
(* Exhaustive odometer with small wheels: closed form, injectivity, lengths. *)
EXTENDS Labels, FiniteSetsExt
CONSTANT MCLen
VARIABLES w, i, seen
vars == <<w, i, seen>>
Init == w = Zero(MCLen) /\ i = 0 /\ seen = {}
Next == /\ i < Capacity(MCLen)
        /\ seen' = seen \cup {Text_(MCLen, w)}
        /\ w' = Succ(MCLen, w)
        /\ i' = i + 1
Spec == Init /\ [][Next]_vars
ClosedForm == i < Capacity(MCLen) => w = LabelWheels(MCLen, i)
Distinct   == Cardinality(seen) = i              \* never a repeated label
WrapOnlyAtCapacity == (w = Zero(MCLen)) <=> (i \in {0, Capacity(MCLen)})
Length_    == \A s \in seen : Len(s) = MCLen
LetterFirst == \A s \in seen : Ch(s, 1) \notin Digits
DigitsTail == \A s \in seen : \A k \in 4..MCLen : Ch(s, k) \in Digits
=============================================================================
