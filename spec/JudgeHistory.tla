---------------------------- MODULE JudgeHistory ----------------------------
(***************************************************************************)
(* Trace validation for histories with questions (C32).  The machine of     *)
(* History.tla runs along: the boards after every operation are those of    *)
(* the machine, questions change nothing, and every answer is the one given *)
(* by a process which made the changes before it and asked nothing else.    *)
(***************************************************************************)
EXTENDS History, Log
VARIABLES vIdx, vPos, vHeap
Events == LogLines[vIdx].ops
Seen(m) == [w |-> m.w, h |-> m.h, num |-> m.num,
            cand |-> [i \in DOMAIN m.cand |-> Set(m.cand[i])]]
Meant(e) == IF e.op = "load" THEN [op |-> "load", board |-> Seen(e.board)] ELSE e
Observed(heap, e) ==
    FoldLeft(LAMBDA acc, x : [acc EXCEPT ![x.b].num[x.p] = x.v, ![x.b].cand[x.p] = Set(x.c)],
             IF e.op \in {"load", "copy"} THEN Append(heap, Seen(e.made)) ELSE heap, e.chg)
Strange(e) == \E i \in DOMAIN e.chg : e.chg[i].p = 0
What(e) == IF e.op = "ask" THEN "ask " \o e.q ELSE e.op
BadStep(heap, e) == Failing({
    <<"a board changed its shape", ~Strange(e)>>,
    <<"boards after " \o What(e), Strange(e) \/ Observed(heap, e) = HistoryNext(heap, Meant(e))>>,
    <<"another answer than without the questions before: " \o What(e), e.op # "ask" \/ e.ans = e.alone>>,
    <<"error in " \o What(e), e.err = "ok">>})
Init == vIdx \in DOMAIN LogLines /\ vPos = 0 /\ vHeap = <<>>
Step == /\ vPos < Len(Events)
        /\ LET e == Events[vPos + 1]
               bad == BadStep(vHeap, e)
           IN /\ RejectAll(vIdx, {ToString(vPos + 1) \o ": " \o c : c \in bad})
              /\ bad = {}
              /\ vHeap' = HistoryNext(vHeap, Meant(e))
        /\ vPos' = vPos + 1 /\ UNCHANGED vIdx
Finish == /\ vPos = Len(Events) /\ Judged(vIdx)
          /\ vPos' = vPos + 1 /\ UNCHANGED <<vIdx, vHeap>>
Next == Step \/ Finish
=============================================================================
