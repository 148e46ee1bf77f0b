-------------------------------- MODULE Rules --------------------------------
(***************************************************************************)
(* The rules of the puzzle.  A grid is a sequence num of numbers, 0 is an  *)
(* empty field.  cand maps every field to a set of candidates.             *)
(***************************************************************************)
EXTENDS Grid

Empty(s, num) == {p \in CELLS[s] : num[p] = 0}
Filled(s, num) == {p \in CELLS[s] : num[p] # 0}
IsFull(s, num) == \A p \in CELLS[s] : num[p] # 0

\* all ordered pairs of fields that may not hold the same number, but do
Conflicts(s, num) ==
    UNION {{<<p, q>> : q \in {x \in PEERS[s][p] : num[x] = num[p]}} :
           p \in Filled(s, num)}
ConflictFree(s, num) ==
    \A p \in CELLS[s] : num[p] # 0 => \A q \in PEERS[s][p] : num[q] # num[p]

\* a complete grid: every row, column and box holds every number
IsGrid(s, num) ==
    /\ Len(num) = NN[s] * NN[s]
    /\ \A u \in UNITS[s] : {num[p] : p \in u} = NUMS[s]
Extends(num, given) == \A p \in DOMAIN given : given[p] # 0 => num[p] = given[p]
IsSolutionOf(s, num, given) == IsGrid(s, num) /\ Extends(num, given)

Calc(s, num, p) ==
    IF num[p] # 0 THEN {num[p]}
    ELSE NUMS[s] \ {num[q] : q \in PEERS[s][p]}
CalcAll(s, num) == [p \in CELLS[s] |-> Calc(s, num, p)]
NoCand(s) == [p \in CELLS[s] |-> {}]

\* cand still contains the complete grid sol
Holds(cand, sol) == \A p \in DOMAIN cand : sol[p] \in cand[p]

-----------------------------------------------------------------------------
(* Branching of the search for solutions: all placements <<p, v>> for one   *)
(* constraint (one field, or one number in one unit) with fewest choices.   *)
(* {} if some constraint cannot be met any more.  num must not be full.     *)
Branches(s, num) ==
    LET cand == TLCEval(CalcAll(s, num))
        e == Empty(s, num)
        cellc == {{<<p, v>> : v \in cand[p]} : p \in e}
        unitc == UNION {
            LET f == {p \in u : num[p] = 0} IN
            {{<<p, v>> : p \in {q \in f : v \in cand[q]}} :
                v \in NUMS[s] \ {num[p] : p \in u}} : u \in UNITS[s]}
        cheap == {c \in cellc : Cardinality(c) <= 1}
        pool == IF cheap # {} THEN cheap ELSE cellc \cup unitc
        m == Min({Cardinality(c) : c \in pool})
    IN CHOOSE c \in pool : Cardinality(c) = m

RECURSIVE Completions(_, _)
Completions(s, num) ==
    IF IsFull(s, num) THEN {num}
    ELSE UNION {Completions(s, [num EXCEPT ![b[1]] = b[2]]) : b \in Branches(s, num)}
\* all solutions of a grid; the recursion relies on a conflict free start
Solutions(s, num) == IF ConflictFree(s, num) THEN Completions(s, num) ELSE {}
\* is there one? (does not look for all of them)
RECURSIVE Completable(_, _)
Completable(s, num) ==
    \/ IsFull(s, num)
    \/ \E b \in Branches(s, num) : Completable(s, [num EXCEPT ![b[1]] = b[2]])
Solvable(s, num) == ConflictFree(s, num) /\ Completable(s, num)
=============================================================================
