----------------------------- MODULE SolveLoop -----------------------------
(***************************************************************************)
(* The step by step solver.  A solver state is a record                    *)
(*   [num, cand, calc, last]                                               *)
(* calc: the fields whose candidates have been set up, last: the technique *)
(* of the previous step ("" before the first).                             *)
(***************************************************************************)
EXTENDS Techniques

SolverStart(s, puzzle) ==
    [num |-> puzzle,
     cand |-> [p \in CELLS[s] |-> IF puzzle[p] = 0 THEN {} ELSE {puzzle[p]}],
     calc |-> {p \in CELLS[s] : puzzle[p] # 0},
     last |-> ""]

\* A field gets its candidates only once.
Applicable(t, s, st) ==
    IF t = "CalculateCandidates" THEN st.calc # CELLS[s]
    ELSE Instances(t, s, st.num, st.cand) # {}
NothingSimpler(t, s, st) ==
    \A k \in 1..(Rank[t] - 1) : ~Applicable(Order[k], s, st)
\* The technique may go on with what it is doing; before another technique
\* starts, no simpler one is left.
MayUse(t, s, st) == t = st.last \/ NothingSimpler(t, s, st)
StepAllowed(t, s, st, x) ==
    /\ Justified(t, s, st.num, st.cand, x)
    /\ t = "CalculateCandidates" => \A p \in x.aff : p \notin st.calc
AfterStep(t, s, st, x) ==
    [num |-> ApplyNum(t, x, st.num),
     cand |-> TLCEval(ApplyCand(t, x, s, st.cand)),
     calc |-> IF t = "CalculateCandidates" THEN st.calc \cup x.aff ELSE st.calc,
     last |-> t]
\* nothing left to do
Done(s, st) == \A t \in Logical : ~Applicable(t, s, st)
=============================================================================
