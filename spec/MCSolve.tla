------------------------------- MODULE MCSolve -------------------------------
(* The solving loop terminates, keeps the given numbers and solves whatever *)
(* can be solved (small boards, every puzzle of a family).                  *)
EXTENDS SolveLoop
CONSTANTS K, STALE
MCSizes == {<<2, 2>>}
S2 == <<2, 2>>
Base == <<1,2,3,4, 3,4,1,2, 2,1,4,3, 4,3,2,1>>
Odd == <<1,2,3,4, 2,4,1,3, 3,1,4,2, 4,2,3,1>>
Cells9 == {1, 3, 6, 8, 9, 11, 14, 16, 4}
Masked(g, m) == [p \in 1..16 |-> IF p \in m THEN g[p] ELSE 0]
VARIABLES vPuzzle, vSt, vEnd
solveVars == <<vPuzzle, vSt, vEnd>>
Init == \E g \in {Base, Odd} : \E m \in kSubset(K, Cells9) :
    /\ vPuzzle = Masked(g, m) /\ vSt = SolverStart(S2, Masked(g, m)) /\ vEnd = ""
\* steps of the guessing technique: a field of one of the solutions
Guesses(st) == LET g == CHOOSE x \in Solutions(S2, st.num) : TRUE IN
    {Step({p}, {p}, {g[p]}) : p \in {q \in 1..16 : st.num[q] = 0}}
Take(t) ==
    /\ vEnd = ""
    /\ IF STALE THEN MayUse(t, S2, vSt) ELSE NothingSimpler(t, S2, vSt)
    /\ \E x \in Instances(t, S2, vSt.num, vSt.cand) :
        StepAllowed(t, S2, vSt, x) /\ vSt' = AfterStep(t, S2, vSt, x)
    /\ UNCHANGED <<vPuzzle, vEnd>>
Guess ==
    /\ vEnd = "" /\ Done(S2, vSt) /\ ~IsFull(S2, vSt.num)
    /\ IF Solutions(S2, vSt.num) = {} THEN vEnd' = "stuck" /\ UNCHANGED vSt
       ELSE \E x \in Guesses(vSt) : vSt' = AfterStep("Bruteforce", S2, vSt, x) /\ UNCHANGED vEnd
    /\ UNCHANGED vPuzzle
Finish == /\ vEnd = "" /\ IsFull(S2, vSt.num) /\ Done(S2, vSt)
          /\ vEnd' = "full" /\ UNCHANGED <<vPuzzle, vSt>>
Next == (\E t \in Logical : Take(t)) \/ Guess \/ Finish
Spec == Init /\ [][Next]_solveVars /\ WF_solveVars(Next)

Sols == Solutions(S2, vPuzzle)
KeepsGivens == Extends(vSt.num, vPuzzle)
KeepsSolutions == Sols # {} =>
    \E g \in Sols : Extends(g, vSt.num) /\ \A p \in vSt.calc : g[p] \in vSt.cand[p]
UniqueKept == Cardinality(Sols) = 1 => \A g \in Sols : \A p \in vSt.calc : g[p] \in vSt.cand[p]
SolvesSolvable == (vEnd # "" /\ Sols # {}) => vEnd = "full" /\ vSt.num \in Sols
Ends == <>(vEnd # "")
\* every step makes the work left smaller
Work(st) == Cardinality({p \in 1..16 : st.num[p] = 0}) * 100
          + (16 - Cardinality(st.calc)) * 1000
          + FoldFunction(LAMBDA c, acc : acc + Cardinality(c), 0, st.cand)
Progress == [][vSt' # vSt => Work(vSt') < Work(vSt)]_solveVars
=============================================================================
