----------------------------- MODULE JudgeSolve -----------------------------
(***************************************************************************)
(* Verdicts on solving step by step.  Kinds of records:                    *)
(*   result: what solve() returns (C13)                                    *)
(*   trace:  every reported step, validated transition by transition (C14) *)
(*   rate:   rating and score against the steps used (C16)                 *)
(***************************************************************************)
EXTENDS SolveLoop, Observed
VARIABLES vIdx, vPos, vSt, vSeen
judgeVars == <<vIdx, vPos, vSt, vSeen>>
Rec == LogLines[vIdx]
StepOf(x) == Step(Set(x.clues), Set(x.aff), Set(x.val))

Witnessed(r) == \A i \in DOMAIN r.known : IsSolutionOf(<<r.w, r.h>>, r.known[i], r.b.num)
BadResult(r) ==
    LET s == <<r.w, r.h>> IN
    IF ~Witnessed(r) THEN {"HARNESS: wrong witness"}
    ELSE IF r.err # "ok" THEN {"failed"}
    ELSE IF <<r.result.w, r.result.h>> # s \/ ~Whole(r.result) THEN {"result has another shape"}
    ELSE Failing({
        <<"a given number was changed", Extends(r.result.num, r.b.num)>>,
        <<"no solution returned for a solvable puzzle",
            r.known = <<>> \/ IsSolutionOf(s, r.result.num, r.b.num)>>,
        <<"not the only solution", Len(r.known) # 1 \/ r.result.num = r.known[1]>>,
        <<"puzzle changed", Seen(r.after) = Seen(r.b)>>})

Known(t) == t \in TechSet
BadRate(r) ==
    IF ~Witnessed(r) THEN {"HARNESS: wrong witness"}
    ELSE IF r.err # "ok" THEN {"failed"}
    ELSE IF \E i \in DOMAIN r.steps : ~Known(r.steps[i]) THEN {"unknown technique"}
    ELSE LET w == [i \in DOMAIN r.steps |-> Weight[r.steps[i]]] IN
    Failing({
        <<"rating is not the hardest weight", r.rate = Max({0} \cup Set(w))>>,
        <<"score is not the sum of the weights", r.score = FoldLeft(LAMBDA a, x : a + x, 0, w)>>,
        <<"rating outside of 0 to 10", r.rate \in 0..10>>,
        <<"rating 0 for an incomplete puzzle, or not for a complete one",
            r.known = <<>> \/ (r.rate = 0) = (\A p \in DOMAIN r.b.num : r.b.num[p] # 0)>>,
        <<"puzzle changed", Seen(r.after) = Seen(r.b)>>})

Flat(r) == r.kind # "trace"
BadFlat(r) == IF r.kind = "result" THEN BadResult(r) ELSE BadRate(r)

\* the working board, where it could be watched, is always the replayed one
Matches == vSeen.num = vSt.num /\ vSeen.cand = vSt.cand
Watch(chg) == FoldLeft(LAMBDA acc, x : [acc EXCEPT !.num[x.p] = x.v, !.cand[x.p] = Set(x.c)], vSeen, chg)
BadStep(s, e) ==
    LET x == StepOf(e)
        seen == IF Rec.spied THEN TLCEval(Watch(e.chg)) ELSE vSeen
    IN IF ~Known(e.t) THEN {"unknown technique"}
       ELSE Failing({
         <<e.t \o ": not reported before it takes effect",
            ~Rec.spied \/ (seen.num = vSt.num /\ seen.cand = vSt.cand)>>,
         <<e.t \o ": no genuine step here", StepAllowed(e.t, s, vSt, x)>>,
         <<e.t \o ": a simpler technique was left out", MayUse(e.t, s, vSt)>>})

Init == /\ vIdx \in DOMAIN LogLines /\ vPos = 0
        /\ vSt = <<>> /\ vSeen = <<>>
Judge == /\ vPos = 0 /\ Flat(Rec)
         /\ RejectAll(vIdx, BadFlat(Rec)) /\ Judged(vIdx)
         /\ vPos' = -1 /\ UNCHANGED <<vIdx, vSt, vSeen>>
Start == /\ vPos = 0 /\ ~Flat(Rec)
         /\ vSt' = SolverStart(<<Rec.w, Rec.h>>, Rec.b.num)
         /\ vSeen' = [num |-> vSt'.num, cand |-> vSt'.cand]
         /\ vPos' = 1 /\ UNCHANGED vIdx
Event == /\ vPos > 0 /\ vPos <= Len(Rec.steps)
         /\ LET e == Rec.steps[vPos]
                s == <<Rec.w, Rec.h>>
                bad == TLCEval(BadStep(s, e))
            IN /\ RejectAll(vIdx, {"step " \o ToString(vPos) \o ": " \o c : c \in bad})
               /\ bad = {}
               /\ vSt' = TLCEval(AfterStep(e.t, s, vSt, StepOf(e)))
               /\ vSeen' = IF Rec.spied THEN TLCEval(Watch(e.chg)) ELSE vSeen
         /\ vPos' = vPos + 1 /\ UNCHANGED vIdx
Finish == /\ vPos > 0 /\ vPos = Len(Rec.steps) + 1
          /\ RejectAll(vIdx, Failing({
                <<"failed", Rec.err = "ok">>,
                <<"the reported steps do not lead to the returned board",
                    Rec.err # "ok" \/ (Rec.result.num = vSt.num /\ Seen(Rec.result).cand = vSt.cand)>>,
                <<"a solvable puzzle was not finished", Rec.known = <<>> \/ IsFull(<<Rec.w, Rec.h>>, vSt.num)>>}))
          /\ Judged(vIdx) /\ vPos' = -1 /\ UNCHANGED <<vIdx, vSt, vSeen>>
Next == Judge \/ Start \/ Event \/ Finish
=============================================================================
