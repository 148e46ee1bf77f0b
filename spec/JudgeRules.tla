----------------------------- MODULE JudgeRules -----------------------------
(* Verdicts on calculated candidates (C07), conflicts and completeness (C09). *)
EXTENDS Observed
VARIABLES vIdx, vDone

BadCalc(r) ==
    LET b == Seen(r.b) IN Failing({
        <<"calculation failed", r.err = "ok">>,
        <<"calculated candidates",
            Len(r.calc) = Len(b.num) /\ \A p \in DOMAIN r.calc : Set(r.calc[p]) = Calc(Size(b), b.num, p)>>,
        <<"fields without candidates after calculating them",
            Seen(r.missing) = [b EXCEPT !.cand = [p \in DOMAIN b.num |->
                IF b.cand[p] = {} THEN Calc(Size(b), b.num, p) ELSE b.cand[p]]]>>,
        <<"board changed by calculating", Seen(r.after) = b>>,
        <<"initialised candidates", Seen(r.all) = InitCand(b, FALSE)>>,
        <<"initialised candidates of filled fields", Seen(r.filled) = InitCand(b, TRUE)>>})

\* the reported triples, each once
BadConflictList(b, call) ==
    LET want == {<<x[1], x[2], b.num[x[1]]>> : x \in
                    {y \in Conflicts(Size(b), b.num) : call.coords = <<>> \/ y[1] \in Set(call.coords)}}
        got == {<<call.got[i][1], call.got[i][2], call.got[i][3]>> : i \in DOMAIN call.got}
    IN got # want \/ Cardinality(got) # Len(call.got) \/ call.err # "ok"
BadConflicts(r) ==
    LET b == Seen(r.b) IN Failing({
        <<"conflicts", \A i \in DOMAIN r.calls : ~BadConflictList(b, r.calls[i])>>,
        <<"solved or not", r.solved = Bit(IsFull(Size(b), b.num) /\ ConflictFree(Size(b), b.num))>>,
        <<"full board without conflicts is a grid",
            (IsFull(Size(b), b.num) /\ ConflictFree(Size(b), b.num)) <=> IsGrid(Size(b), b.num)>>,
        <<"board changed", Seen(r.after) = b>>})

Bad(r) == CASE r.kind = "calc" -> BadCalc(r) [] r.kind = "conflicts" -> BadConflicts(r)
Init == vIdx \in DOMAIN LogLines /\ vDone = FALSE
Next == /\ ~vDone
        /\ RejectAll(vIdx, Bad(LogLines[vIdx]))
        /\ Judged(vIdx)
        /\ vDone' = TRUE /\ UNCHANGED vIdx
=============================================================================
