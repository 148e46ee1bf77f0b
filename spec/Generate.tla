------------------------------ MODULE Generate ------------------------------
(***************************************************************************)
(* Digging a puzzle out of a complete grid: groups of fields related by a   *)
(* symmetry are emptied in any order as long as the solution stays unique   *)
(* and enough fields stay filled.                                          *)
(***************************************************************************)
EXTENDS Rules

Symmetries == {"none", "rotate-90", "rotate-180", "mirror-x", "mirror-y", "mirror-xy"}
\* the images of the field in row r and column c; k is the last row/column
Images(sym, k, r, c) ==
    CASE sym = "none" -> {<<r, c>>}
      [] sym = "rotate-90" -> {<<r, c>>, <<k - c, r>>, <<k - r, k - c>>, <<c, k - r>>}
      [] sym = "rotate-180" -> {<<r, c>>, <<k - r, k - c>>}
      [] sym = "mirror-x" -> {<<r, c>>, <<k - r, c>>}
      [] sym = "mirror-y" -> {<<r, c>>, <<r, k - c>>}
      [] sym = "mirror-xy" -> {<<r, c>>, <<k - r, c>>, <<r, k - c>>, <<k - r, k - c>>}
Orbit(s, sym, p) ==
    {At(s[1], s[2], x[1], x[2]) :
        x \in Images(sym, NN[s] - 1, RowNo(s[1], s[2], p), ColNo(s[1], s[2], p))}
Symmetric(s, sym, num) ==
    \A p \in CELLS[s] : num[p] # 0 => \A q \in Orbit(s, sym, p) : num[q] # 0
Cleared(num, fields) == [p \in DOMAIN num |-> IF p \in fields THEN 0 ELSE num[p]]
UniqueSolution(s, num, sol) == Solutions(s, num) = {sol}

\* a digger is a record [sol, num, todo, min, sym]
DigStart(s, sol, least, sym) ==
    [sol |-> sol, num |-> sol, todo |-> CELLS[s], min |-> least, sym |-> sym]
DigAt(s, d, p) ==
    LET o == Orbit(s, d.sym, p)
        less == Cleared(d.num, o)
    IN IF Cardinality(Filled(s, d.num)) - Cardinality(o) < d.min
       THEN [d EXCEPT !.todo = {}]
       ELSE [d EXCEPT !.todo = @ \ o,
                      !.num = IF UniqueSolution(s, less, d.sol) THEN less ELSE @]
\* no further group can be emptied
Irreducible(s, sym, num, sol) ==
    \A p \in Filled(s, num) : ~UniqueSolution(s, Cleared(num, Orbit(s, sym, p)), sol)
=============================================================================
