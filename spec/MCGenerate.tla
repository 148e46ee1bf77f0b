----------------------------- MODULE MCGenerate -----------------------------
(* Every order of digging on small boards gives a correct puzzle.           *)
EXTENDS Generate
CONSTANT WIDE
MCSizes == {<<2, 2>>, <<1, 3>>}
G2 == <<1,2,3,4, 3,4,1,2, 2,1,4,3, 4,3,2,1>>
G2b == <<1,2,3,4, 3,4,2,1, 2,1,4,3, 4,3,1,2>>
G3 == <<1,2,3, 2,3,1, 3,1,2>>
VARIABLES vShape, vDig
Init == \/ /\ vShape = <<2, 2>>
           /\ \E g \in (IF WIDE THEN {G2, G2b} ELSE {G2}) : \E least \in {0, 7, 16} :
              \E y \in (IF WIDE THEN Symmetries \ {"none"} ELSE {"rotate-90", "rotate-180", "mirror-xy"}) :
                vDig = DigStart(<<2, 2>>, g, least, y)
        \/ /\ vShape = <<1, 3>>
           /\ \E least \in {0, 4} : \E y \in (IF WIDE THEN {"none", "mirror-x", "mirror-y"} ELSE {"mirror-y"}) :
                vDig = DigStart(<<1, 3>>, G3, least, y)
Next == /\ \E p \in vDig.todo : vDig' = DigAt(vShape, vDig, p)
        /\ UNCHANGED vShape
StaysUnique == UniqueSolution(vShape, vDig.num, vDig.sol)
Enough == Cardinality(Filled(vShape, vDig.num)) >= vDig.min
Pattern == Symmetric(vShape, vDig.sym, vDig.num)
Minimal == (vDig.todo = {} /\ vDig.min = 0) => Irreducible(vShape, vDig.sym, vDig.num, vDig.sol)
FullWhenAsked == vDig.min = NN[vShape] * NN[vShape] => IsGrid(vShape, vDig.num)
\* the images of a field form a group: orbits are disjoint or equal
Orbits == \A y \in Symmetries : \A p \in CELLS[vShape] : \A q \in Orbit(vShape, y, p) :
    Orbit(vShape, y, q) = Orbit(vShape, y, p)
\* two grids of a shape differ in four fields at least
FourApart == LET all == Solutions(vShape, [p \in CELLS[vShape] |-> 0]) IN
    vDig.todo = CELLS[vShape] =>
        \A g \in all : g = vDig.sol \/ Cardinality({p \in DOMAIN g : g[p] # vDig.sol[p]}) >= 4
=============================================================================
