------------------------------ MODULE Observed ------------------------------
(* Boards as they appear in a log.                                           *)
EXTENDS Board, Log
Seen(m) == [w |-> m.w, h |-> m.h, num |-> m.num,
            cand |-> TLCEval([i \in DOMAIN m.cand |-> Set(m.cand[i])])]
\* a well formed observation: as many fields as the shape has
Whole(m) == /\ m.w > 0 /\ m.h > 0
            /\ Len(m.num) = m.w * m.h * m.w * m.h /\ Len(m.cand) = Len(m.num)
\* changes observed on a board: a sequence of [p, v, c]
Changed(b, chg) ==
    FoldLeft(LAMBDA acc, x : [acc EXCEPT !.num[x.p] = x.v, !.cand[x.p] = Set(x.c)], b, chg)
Regular(chg) == \A i \in DOMAIN chg : chg[i].p # 0
=============================================================================
