------------------------------- MODULE MCValues -------------------------------
(* The order of steps is a total order and agrees with equality; the text    *)
(* and the order do not depend on how fields and numbers are listed.         *)
EXTENDS Values
CONSTANT WIDE
VARIABLES vX, vY, vZ
MCSizes == {<<1, 2>>}
N2 == 2
SeqsUpTo(S, k) == UNION {[1..i -> S] : i \in 0..k} \ {<<>>}
Domain == [clues : SeqsUpTo(1..3, 2), aff : IF WIDE THEN SeqsUpTo({1, 4}, 1) ELSE {<<1>>},
           val : SeqsUpTo(1..2, IF WIDE THEN 2 ELSE 1)]
Init == vX \in Domain /\ vY \in Domain /\ vZ \in Domain
Next == FALSE /\ UNCHANGED <<vX, vY, vZ>>
T == <<"T">>
Total == Cardinality({i \in 1..3 : <<Before(vX, vY), Same(vX, vY), Before(vY, vX)>>[i]}) = 1
Transitive == Before(vX, vY) /\ Before(vY, vZ) => Before(vX, vZ)
SameIsAlike == Same(vX, vY) => (Before(vX, vZ) = Before(vY, vZ)) /\ (Before(vZ, vX) = Before(vZ, vY))
Rev(q) == [i \in DOMAIN q |-> q[Len(q) + 1 - i]]
AnyOrder == Same(vX, [clues |-> Rev(vX.clues), aff |-> Rev(vX.aff), val |-> Rev(vX.val)])
TextTells == (StepText(T, "NakedPair", vX, N2) = StepText(T, "NakedPair", vY, N2))
    = (Canon(vX).clues = Canon(vY).clues /\ Canon(vX).val = Canon(vY).val)
=============================================================================
