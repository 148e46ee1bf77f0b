----------------------------- MODULE JudgeCursors -----------------------------
(***************************************************************************)
(* Trace validation for searches under way (C29).  A record has the boards  *)
(* at the beginning and a sequence of events; after each event the changes  *)
(* of all boards were taken.                                                *)
(***************************************************************************)
EXTENDS Cursors, Observed
VARIABLES vIdx, vPos, vHeap, vCur
Rec == LogLines[vIdx]
Events == Rec.events
Observing(heap, e) ==
    FoldLeft(LAMBDA acc, x : [acc EXCEPT ![x.b].num[x.p] = x.v, ![x.b].cand[x.p] = Set(x.c)], heap, e.chg)
Strange(e) == \E i \in DOMAIN e.chg : e.chg[i].p = 0
\* a search run alone gives nothing twice, and solutions
AloneFine(heap, e) ==
    /\ \A i, j \in DOMAIN e.all : i # j => e.all[i] # e.all[j]
    /\ e.kind \in Snapshot =>
        \A i \in DOMAIN e.all : IsSolutionOf(Size(heap[e.b]), e.all[i].num, heap[e.b].num)
Doing(e) == e.op \o (IF e.op = "next" THEN " of " \o vCur[e.c].kind ELSE "")
BadStep(heap, e) == Failing({
    <<"a board changed its shape", ~Strange(e)>>,
    <<"boards after " \o Doing(e), Strange(e) \/ Observing(heap, e) = HeapNext(heap, e)>>,
    <<"result of " \o Doing(e), e.err # "ok" \/ AllowedOp(heap, vCur, e)>>,
    <<"results of a search alone", e.op # "open" \/ AloneFine(heap, e)>>,
    <<"answer to " \o e.op, e.op \notin {"solve", "ask", "apply", "peek"} \/ e.same>>,
    <<"error in " \o Doing(e) \o ": " \o e.err, e.err = "ok">>})
Init == /\ vIdx \in DOMAIN LogLines /\ vPos = 0
        /\ vHeap = [i \in DOMAIN Rec.boards |-> Seen(Rec.boards[i])] /\ vCur = <<>>
Step == /\ vPos < Len(Events)
        /\ LET e == Events[vPos + 1]
               bad == TLCEval(BadStep(vHeap, e))
           IN /\ RejectAll(vIdx, {ToString(vPos + 1) \o ": " \o c : c \in bad})
              /\ bad = {}
              /\ vHeap' = HeapNext(vHeap, e)
              /\ vCur' = CursorsNext(vCur, e)
        /\ vPos' = vPos + 1 /\ UNCHANGED vIdx
Finish == /\ vPos = Len(Events) /\ Judged(vIdx)
          /\ vPos' = vPos + 1 /\ UNCHANGED <<vIdx, vHeap, vCur>>
Next == Step \/ Finish
=============================================================================
