----------------------------- MODULE JudgeHeap -----------------------------
(***************************************************************************)
(* Trace validation for boards: the record is a history of operations with *)
(* what was observed after each; the state machine of Board.tla runs along. *)
(* A history is accepted if every step is a step of the machine and shows   *)
(* the result the machine gives.                                            *)
(***************************************************************************)
EXTENDS Board, Log
VARIABLES vIdx, vPos, vHeap
Events == LogLines[vIdx].ops
Seen(m) == [w |-> m.w, h |-> m.h, num |-> m.num,
            cand |-> [i \in DOMAIN m.cand |-> Set(m.cand[i])]]
\* the heap as observed after event e, given the one before
Observed(heap, e) ==
    FoldLeft(LAMBDA acc, x : [acc EXCEPT ![x.b].num[x.p] = x.v, ![x.b].cand[x.p] = Set(x.c)],
             IF e.op \in {"new", "copy"} THEN Append(heap, Seen(e.made)) ELSE heap, e.chg)
Strange(e) == \E i \in DOMAIN e.chg : e.chg[i].p = 0
BadStep(heap, e) == Failing({
    <<"a board changed its shape", ~Strange(e)>>,
    <<"boards after " \o e.op, Strange(e) \/ Observed(heap, e) = OpNext(heap, e)>>,
    <<"result of " \o e.op, e.op \notin Reads \/ e.res = OpResult(heap, e)>>,
    <<"error in " \o e.op, e.err = "ok">>})
Init == vIdx \in DOMAIN LogLines /\ vPos = 0 /\ vHeap = <<>>
Step == /\ vPos < Len(Events)
        /\ LET e == Events[vPos + 1]
               bad == BadStep(vHeap, e)
           IN /\ RejectAll(vIdx, {ToString(vPos + 1) \o ": " \o c : c \in bad})
              /\ bad = {}
              /\ vHeap' = OpNext(vHeap, e)
        /\ vPos' = vPos + 1 /\ UNCHANGED vIdx
Finish == /\ vPos = Len(Events) /\ Judged(vIdx)
          /\ vPos' = vPos + 1 /\ UNCHANGED <<vIdx, vHeap>>
Next == Step \/ Finish
=============================================================================
