----------------------------- MODULE JudgeValues -----------------------------
(***************************************************************************)
(* Verdicts on steps as values (C30): comparing, sorting and printing them,  *)
(* building them again, and the changes they consist of.                    *)
(***************************************************************************)
EXTENDS Values, Observed
VARIABLE vIdx
Rec == LogLines[vIdx]

BadItem(r, x) ==
    LET c == Canon(x) IN
    IF x.err # "ok" THEN {"not built"}
    ELSE Failing({
        <<"fields or numbers of a step", x.got = c>>,
        <<"text of a step", x.text = StepText(r.name, r.t, x, r.w * r.h)>>,
        <<"a step built from its representation differs",
          x.back = [ok |-> TRUE, t |-> r.t, step |-> c, same |-> TRUE]>>})
BadOrder(r) ==
    LET item == TLCEval([i \in DOMAIN r.items |-> Canon(r.items[i])])
        upto(q) == \A i \in 1..(Len(q) - 1) : ~Before(item[q[i + 1]], item[q[i]])
        all(q) == Len(q) = Len(item) /\ Set(q) = DOMAIN item
    IN UNION {BadItem(r, r.items[i]) : i \in DOMAIN r.items}
       \cup Failing({
        <<"comparison of steps", \A i \in DOMAIN r.rel :
            r.rel[i].got = Relation(item[r.rel[i].i], item[r.rel[i].j])>>,
        <<"sorting steps", \A i \in DOMAIN r.sorted : all(r.sorted[i]) /\ upto(r.sorted[i])>>})

\* x: the step, its changes, and the board after listing the changes, after each
\* change, after applying
\* the step and after applying it twice
BadChange(s, b, x) ==
    IF x.err # "ok" THEN {"failed"}
    ELSE IF \E i \in DOMAIN x.acts : ~ProperAction(x.acts[i], s) THEN {"a change which is none"}
    ELSE LET after == TLCEval([i \in 0..Len(x.acts) |-> DoAll(b, SubSeq(x.acts, 1, i))]) IN
         Failing({
            <<"listing the changes changes the board", x.built = <<>>>>,
            <<"a change does not do what it says", Len(x.each) = Len(x.acts)
              /\ \A i \in DOMAIN x.acts : Regular(x.each[i]) /\ Changed(b, x.each[i]) = after[i]>>,
            <<"applying differs from doing all changes",
              Regular(x.whole) /\ Changed(b, x.whole) = after[Len(x.acts)]>>,
            <<"applying a step twice differs from once",
              Regular(x.twice) /\ Changed(b, x.twice) = after[Len(x.acts)]>>,
            <<"no changes", x.acts # <<>>>>})
BadChanges(r) ==
    LET s == <<r.w, r.h>>
        b == TLCEval(Seen(r.b))
    IN UNION {{r.steps[i].t \o ": " \o c : c \in BadChange(s, b, r.steps[i])} : i \in DOMAIN r.steps}
Init == vIdx \in DOMAIN LogLines
Next == /\ vIdx > 0
        /\ RejectAll(vIdx, IF Rec.kind = "order" THEN BadOrder(Rec) ELSE BadChanges(Rec))
        /\ Judged(vIdx)
        /\ vIdx' = -1
=============================================================================
