------------------------------- MODULE MCCover -------------------------------
(* The exact cover search on all small families of choices, and as a solver *)
(* of puzzles: its covers are the solutions of Rules.                       *)
EXTENDS Rules, Cover
CONSTANTS Q, C, K, BOARDS
MCSizes == {<<1, 2>>, <<2, 1>>, <<2, 2>>, <<1, 3>>}

\* every family of C choices over the requirements 1..Q, in some orders
Orders(s) == IF Cardinality(s) = 2 THEN {<<Min(s), Max(s)>>, <<Max(s), Min(s)>>}
             ELSE {SetToSortSeq(s, LAMBDA a, b : a < b)}
Nonempty == SUBSET (1..Q) \ {{}}
FamilyInit ==
    \E f \in [1..C -> UNION {Orders(s) : s \in Nonempty}] :
    \E n \in {0, 2} : \E fix \in [1..n -> 1..C] :
        CoverInit(f, 1..Q, fix)

\* the choices of a puzzle: number v in the field p.  Requirements: every
\* field has a number, every unit has every number
Place(s, p, v) == (p - 1) * NN[s] + v
Field(s, c) == (c - 1) \div NN[s] + 1
Value(s, c) == ((c - 1) % NN[s]) + 1
ChoicesOf(s) == 1..(NN[s] * NN[s] * NN[s])
UnitNeed(s, kind, i, v) == NN[s] * NN[s] * kind + i * NN[s] + v
MeetsOf(s) == [c \in ChoicesOf(s) |->
    LET p == Field(s, c) v == Value(s, c) w == s[1] h == s[2] IN
    <<p, UnitNeed(s, 1, RowNo(w, h, p), v), UnitNeed(s, 2, ColNo(w, h, p), v),
      UnitNeed(s, 3, BoxNo(w, h, p), v)>>]
NeedsOf(s) == 1..(4 * NN[s] * NN[s])
\* the given numbers of a board as fixed choices, in the order of the fields
GivenOf(s, num) == SetToSortSeq({Place(s, p, num[p]) : p \in {x \in CELLS[s] : num[x] # 0}},
                                LAMBDA a, b : a < b)
Sub(s, size) == {m \in SUBSET CELLS[s] : Cardinality(m) = size}
Full4 == <<1,2,3,4, 3,4,1,2, 2,1,4,3, 4,3,2,1>>
Odd4 == <<1,2,3,4, 2,4,1,3, 3,1,4,2, 4,2,3,1>>
PuzzlesOf(s) ==
    IF NN[s] = 2 THEN [CELLS[s] -> 0..2]
    ELSE IF NN[s] = 3 THEN {g \in [CELLS[s] -> 0..3] :
             Cardinality({p \in CELLS[s] : g[p] # 0}) = K}
    ELSE {[p \in CELLS[s] |-> IF p \in m THEN f[p] ELSE 0] : f \in {Full4, Odd4},
             m \in {x \in kSubset(K, CELLS[s]) : {1, 4, 13} \subseteq x}}
BoardInit == \E s \in BOARDS : \E g \in PuzzlesOf(s) :
    CoverInit(MeetsOf(s), NeedsOf(s), GivenOf(s, g))
Boards2 == {<<1, 2>>, <<2, 1>>}
Boards3 == {<<1, 3>>}
Boards4 == {<<2, 2>>}

\* all covers which contain the fixed choices (given at the start)
AllCovers(meets, all, fixed) ==
    {set \in SUBSET (DOMAIN meets) : Range(fixed) \subseteq set /\ IsCover(meets, set, all)}

VARIABLE vAsked         \* the fixed choices, as given at the start
Init == FamilyInit /\ vAsked = vFixed
InitBoard == BoardInit /\ vAsked = vFixed
Next == CoverNext /\ UNCHANGED vAsked
Got == {vFound[i] \cup Range(vAsked) : i \in DOMAIN vFound}
Twice(seq) == \E i, j \in DOMAIN seq : i # j /\ seq[i] = seq[j]
\* a choice that meets nothing new cannot be fixed twice
Complete == vMode = "done" =>
    Got = (IF Twice(vAsked) THEN {} ELSE AllCovers(vMeets, 1..Q, vAsked))
SoundCover == \A i \in DOMAIN vFound : IsCover(vMeets, vFound[i] \cup Range(vAsked), 1..Q)

\* the same for puzzles
SizeOf == CHOOSE s \in SIZES : s \in BOARDS /\ MeetsOf(s) = vMeets
GridOf(s, set) == [p \in CELLS[s] |-> Value(s, CHOOSE c \in set : Field(s, c) = p)]
BoardOf(s, fixed) == [p \in CELLS[s] |->
    IF \E i \in DOMAIN fixed : Field(s, fixed[i]) = p
    THEN Value(s, CHOOSE c \in Range(fixed) : Field(s, c) = p) ELSE 0]
Solves == vMode = "done" =>
    LET s == SizeOf IN
    {GridOf(s, x) : x \in Got} = Solutions(s, BoardOf(s, vAsked))
=============================================================================
