--------------------------- MODULE JudgeGeometry ---------------------------
EXTENDS VGeometry, Log
VARIABLES vIdx, vDone
Bad(r) == IF r.kind = "fields" THEN BadFields(r) ELSE BadUnits(r)
Init == vIdx \in 1..Len(LogLines) /\ vDone = FALSE
Next == /\ ~vDone
        /\ RejectAll(vIdx, Bad(LogLines[vIdx]))
        /\ Judged(vIdx)
        /\ vDone' = TRUE /\ UNCHANGED vIdx
=============================================================================
