----------------------------- MODULE JudgeSteps -----------------------------
(***************************************************************************)
(* Verdicts on the steps of the techniques: what is found (C11, C15), what   *)
(* applying a step does (C12) and that no solution is lost (C10).            *)
(***************************************************************************)
EXTENDS Techniques, Observed
VARIABLES vIdx, vPos, vBoard
Rec == LogLines[vIdx]

StepOf(x) == Step(Set(x.clues), Set(x.aff), Set(x.val))
\* no field or value listed twice
Neat(x) == /\ Cardinality(Set(x.clues)) = Len(x.clues)
           /\ Cardinality(Set(x.aff)) = Len(x.aff)
           /\ Cardinality(Set(x.val)) = Len(x.val)
\* hidden tuples list the unit, the other techniques the fields of the pattern
BadFind(s, b, f) ==
    LET got == TLCEval({StepOf(f.steps[i]) : i \in DOMAIN f.steps})
        want == TLCEval(Instances(f.t, s, b.num, b.cand))
        keys == {Key(f.t, x) : x \in got}
    IN IF f.err # "ok" THEN {"failed"}
       ELSE Failing({
        <<"a field or value is listed twice", \A i \in DOMAIN f.steps : Neat(f.steps[i])>>,
        <<"no genuine pattern, or wrong fields or values", got \subseteq want>>,
        <<"a pattern is missing", {Key(f.t, x) : x \in want} \subseteq keys>>,
        <<"a step is reported twice", Cardinality(keys) = Len(f.steps)>>})
BadFinds(r) ==
    LET s == <<r.w, r.h>>
        b == TLCEval(Seen(r.b))
    IN UNION {{r.finds[k].t \o ": " \o c : c \in BadFind(s, b, r.finds[k])} : k \in DOMAIN r.finds}
       \cup Failing({<<"board changed by searching", Seen(r.after) = b>>})

\* C12
Announced(t, x, s, b) ==
    [b EXCEPT !.num = ApplyNum(t, x, b.num), !.cand = ApplyCand(t, x, s, b.cand)]
\* The step x was applied to several boards, the first one being that on
\* which it was found.
BadEffect(s, b, x, o) ==
    LET y == StepOf(x)
        after == Changed(b, o.chg)
        where == IF o.b = 1 THEN "" ELSE " (on another board)"
    IN Failing({
        <<"failed" \o where, o.err = "ok">>,
        <<"board changed its shape" \o where, Regular(o.chg)>>,
        <<"effect differs from the announced one" \o where,
            ~Regular(o.chg) \/ x.aff = <<>> \/ after = Announced(x.t, y, s, b)>>,
        <<"affected field not changed", o.b # 1 \/ ~Regular(o.chg)
            \/ x.t \in {"CalculateCandidates"} \cup Writers
            \/ \A p \in y.aff : after.cand[p] # b.cand[p]>>,
        <<"a number is written by an elimination", x.t \in Writers \/ ~Regular(o.chg) \/ after.num = b.num>>})
BadApply(s, boards, x) ==
    UNION {BadEffect(s, boards[x.on[i].b], x, x.on[i]) : i \in DOMAIN x.on}
    \cup Failing({
        <<"not applied", {x.on[i].b : i \in DOMAIN x.on} = DOMAIN boards>>,
        <<"no affected fields", x.aff # <<>> >>,
        <<"not one field and value", x.t \notin Writers \/ (Len(x.aff) = 1 /\ Len(x.val) = 1)>>})
BadApplies(r) ==
    LET s == <<r.w, r.h>>
        boards == TLCEval([i \in DOMAIN r.boards |-> Seen(r.boards[i])])
    IN UNION {{r.steps[i].t \o ": " \o c : c \in BadApply(s, boards, r.steps[i])} : i \in DOMAIN r.steps}
       \cup Failing({<<"finding failed", r.err = "ok">>})

\* C10.  A field without candidates has not got its candidates yet.
Contained(b, sol) == \A p \in DOMAIN sol :
    IF b.num[p] # 0 THEN b.num[p] = sol[p] ELSE b.cand[p] = {} \/ sol[p] \in b.cand[p]
Keeps(b, sols) == \A i \in DOMAIN sols :
    \A p \in DOMAIN sols[i] : /\ b.num[p] \in {0, sols[i][p]}
                              /\ b.cand[p] = {} \/ sols[i][p] \in b.cand[p]
\* emptied fields: a field with candidates may not lose all of them
Emptied(b, after) == \E p \in DOMAIN b.cand : b.cand[p] # {} /\ after.cand[p] = {}
BadSafe(r) ==
    LET s == <<r.w, r.h>>
        b == TLCEval(Seen(r.b))
        fine(chg) == Regular(chg) => LET a == Changed(b, chg) IN Keeps(a, r.sols) /\ ~Emptied(b, a)
    IN IF \E i \in DOMAIN r.sols : ~(IsGrid(s, r.sols[i]) /\ Contained(b, r.sols[i]))
       THEN {"HARNESS: wrong witness"}
       ELSE UNION {
            {r.techs[k].t \o ": " \o c : c \in Failing({
                <<"failed", r.techs[k].err = "ok">>,
                <<"a step loses a solution", r.techs[k].t = "Bruteforce" \/
                    \A i \in DOMAIN r.techs[k].alone : fine(r.techs[k].alone[i])>>,
                <<"applying all steps loses a solution", r.techs[k].t = "Bruteforce" \/ fine(r.techs[k].all)>>,
                <<"no solution after guessing", r.techs[k].t # "Bruteforce" \/
                    IsSolutionOf(s, Changed(b, r.techs[k].all).num, b.num)>>})} : k \in DOMAIN r.techs}

\* C15
BadHints(r) ==
    LET b == TLCEval(Seen(r.b))
        named(t) == SelectSeq(r.hints, LAMBDA x : x.t = t)
        steps(list) == TLCEval({StepOf(list[i]) : i \in DOMAIN list})
    IN IF r.err # "ok" THEN {"failed"}
       ELSE IF \E i \in DOMAIN r.hints : r.hints[i].t \notin Logical THEN {"a hint of no logical technique"}
       ELSE Failing({
        <<"hints not ordered from simple to hard", \A i \in 1..(Len(r.hints) - 1) :
            Rank[r.hints[i].t] <= Rank[r.hints[i + 1].t]>>,
        <<"hints differ from the steps found", \A k \in DOMAIN r.finds :
            LET h == named(r.finds[k].t) IN
            /\ Len(h) = Len(r.finds[k].steps)
            /\ steps(h) = steps(r.finds[k].steps)
            /\ Cardinality(steps(h)) = Len(h)>>,
        <<"hints of a technique which was not asked",
            {r.finds[k].t : k \in DOMAIN r.finds} = Logical>>,
        <<"board changed by hints", Seen(r.after) = b>>})

Flat(r) == r.kind # "interleaved"
BadFlat(r) == CASE r.kind = "find" -> BadFinds(r)
                [] r.kind = "apply" -> BadApplies(r)
                [] r.kind = "safe" -> BadSafe(r)
                [] r.kind = "hints" -> BadHints(r)

\* Interleaved searching and applying: after every single change of the board
\* all solutions are still there.
BadEvent(b, e) ==
    IF e.err # "ok" THEN {e.t \o ": failed"}
    ELSE IF ~Regular(e.chg) THEN {e.t \o ": board changed its shape"}
    ELSE LET a == Changed(b, e.chg) IN
         Failing({<<e.t \o ": a step loses a solution", Keeps(a, Rec.sols) /\ ~Emptied(b, a)>>,
                  <<e.t \o ": searching changed the board", e.what = "apply" \/ e.chg = <<>> >>})

Init == /\ vIdx \in DOMAIN LogLines /\ vPos = 0
        /\ vBoard = <<>>
Judge == /\ vPos = 0 /\ Flat(Rec)
         /\ RejectAll(vIdx, BadFlat(Rec)) /\ Judged(vIdx)
         /\ vPos' = -1 /\ UNCHANGED <<vIdx, vBoard>>
Start == /\ vPos = 0 /\ ~Flat(Rec)
         /\ LET b == Seen(Rec.b)
                bad == Failing({<<"HARNESS: wrong witness", \A i \in DOMAIN Rec.sols :
                        IsGrid(<<Rec.w, Rec.h>>, Rec.sols[i]) /\ Contained(b, Rec.sols[i])>>})
            IN RejectAll(vIdx, bad) /\ bad = {} /\ vBoard' = b
         /\ vPos' = 1 /\ UNCHANGED vIdx
Event == /\ vPos > 0 /\ vPos <= Len(Rec.events)
         /\ LET e == Rec.events[vPos]
                bad == BadEvent(vBoard, e)
            IN RejectAll(vIdx, {ToString(vPos) \o ": " \o c : c \in bad}) /\ bad = {}
               /\ vBoard' = Changed(vBoard, e.chg)
         /\ vPos' = vPos + 1 /\ UNCHANGED vIdx
Finish == /\ vPos > 0 /\ vPos = Len(Rec.events) + 1
          /\ Judged(vIdx) /\ vPos' = -1 /\ UNCHANGED <<vIdx, vBoard>>
Next == Judge \/ Start \/ Event \/ Finish
=============================================================================
