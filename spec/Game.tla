--------------------------------- MODULE Game ---------------------------------
(***************************************************************************)
(* The game shell.  A game is a record                                      *)
(*   [hist, at, rules, sol]                                                 *)
(* hist: the boards visited, at: the position of the current one, sol: the  *)
(* solution, rules: the automatic settings [remove, fill].                  *)
(* An input is a record [k, ...]: "move" (with m), "candidates", "undo",    *)
(* "redo", "query" (hint, check, conflicts, settings), "unknown", "nothing".*)
(***************************************************************************)
EXTENDS Notation, Techniques

Current(g) == g.hist[g.at]
\* one round: first remove all set numbers from the surroundings, then fill
\* every field with one candidate left
Swept(b) ==
    LET s == Size(b) IN
    [b EXCEPT !.cand = TLCEval([p \in DOMAIN b.cand |->
        b.cand[p] \ {b.num[q] : q \in PEERS[s][p]}])]
Completed(b) ==
    [b EXCEPT !.num = TLCEval([p \in DOMAIN b.num |->
        IF b.num[p] = 0 /\ Cardinality(b.cand[p]) = 1
        THEN CHOOSE v \in b.cand[p] : TRUE ELSE b.num[p]])]
Round(b, rules) ==
    LET x == IF rules.remove THEN Swept(b) ELSE b IN IF rules.fill THEN Completed(x) ELSE x
RECURSIVE Autofill(_, _)
Autofill(b, rules) ==
    LET x == TLCEval(Round(b, rules)) IN IF x = b THEN b ELSE Autofill(x, rules)

Visit(g, b) ==
    IF b = Current(g) THEN g
    ELSE [g EXCEPT !.hist = Append(SubSeq(@, 1, g.at), b), !.at = @ + 1]
Play(g, c) ==
    CASE c.k = "move" -> Visit(g, Autofill(Perform(Current(g), c.m), g.rules))
      [] c.k = "candidates" -> Visit(g, InitCand(Current(g), FALSE))
      [] c.k = "undo" -> IF g.at = 1 THEN g ELSE [g EXCEPT !.at = @ - 1]
      [] c.k = "redo" -> IF g.at = Len(g.hist) THEN g ELSE [g EXCEPT !.at = @ + 1]
      [] OTHER -> g

-----------------------------------------------------------------------------
(* What is printed. *)
\* what the automatics did after a move: fields and numbers
Swept2(b, m, rules) ==
    LET x == Perform(b, m)
        y == Autofill(x, rules)
    IN UNION {{<<p, v>> : v \in x.cand[p] \ y.cand[p]} : p \in DOMAIN x.cand}
Filled2(b, m, rules) ==
    LET x == Perform(b, m)
        y == Autofill(x, rules)
    IN {<<p, y.num[p]>> : p \in {q \in DOMAIN x.num : x.num[q] # y.num[q]}}
\* fields which differ from the solution
Wrong(g) == {p \in DOMAIN g.sol : Current(g).num[p] \notin {0, g.sol[p]}}
\* unordered pairs of conflicting fields
ConflictPairs(b) == {{x[1], x[2]} : x \in Conflicts(Size(b), b.num)}

\* Hints: the instances of all techniques as [t, clues, val].
Shown(t, x) == [t |-> t, clues |-> x.clues, val |-> x.val]
HintsOf(t, b) == {Shown(t, x) : x \in Instances(t, Size(b), b.num, b.cand)}
\* one of several variants of a pattern is enough
HintKey(h) == <<h.t, IF h.t \in NakedTuples \cup {"HiddenSingle"} THEN h.clues ELSE <<h.clues, h.val>>>>
=============================================================================
