------------------------------ MODULE MCSearch ------------------------------
(* Search and Rules checked against a definition by plain enumeration.      *)
EXTENDS Search
MCSizes == {<<2, 2>>}
S2 == <<2, 2>>
Perms == {f \in [1..4 -> 1..4] : \A i, j \in 1..4 : i # j => f[i] # f[j]}
\* all complete grids of four 2x2 boxes, by enumeration of their rows
Bands == TLCEval({a \o b : a, b \in TLCEval({<<f[1], f[2], f[3], f[4]>> : f \in Perms})})
GoodBands == TLCEval({t \in Bands : Cardinality({t[1], t[2], t[5], t[6]}) = 4
                                   /\ Cardinality({t[3], t[4], t[7], t[8]}) = 4})
AllGrids == TLCEval({g \in {a \o b : a, b \in GoodBands} : IsGrid(S2, g)})
ASSUME Cardinality(AllGrids) = 288
Base == <<1,2,3,4, 3,4,1,2, 2,1,4,3, 4,3,2,1>>
CONSTANT K
\* a second filling whose puzzles are mostly unsolvable
Odd == <<1,2,3,4, 2,4,1,3, 3,1,4,2, 4,2,3,1>>
Mask(g, m) == [p \in 1..16 |-> IF p \in m THEN g[p] ELSE 0]
Puzzles == {Mask(Base, m) : m \in kSubset(K, 1..16)}
   \cup {Mask(Odd, m) : m \in kSubset(K, 1..16)}
Init == \E z \in Puzzles : SearchInit(S2, z)
Next == Place
Truth == {g \in AllGrids : Extends(g, vGiven)}
Complete == (vGrid = vGiven) => /\ Solutions(S2, vGiven) = Truth
                                /\ Solvable(S2, vGiven) = (Truth # {})
Sound == Found => vGrid \in Truth
\* no branch is lost: every solution still agreeing with an inner state is
\* reached through one of its successors
NoLoss == (~Hopeless /\ ~IsFull(S2, vGrid)) =>
    \A g \in AllGrids : Extends(g, vGrid) =>
        Cardinality({b \in Branches(S2, vGrid) : g[b[1]] = b[2]}) = 1
\* a field's calculated candidates contain every solution
CalcKeeps == \A g \in AllGrids : Extends(g, vGrid) => Holds(CalcAll(S2, vGrid), g)
=============================================================================
