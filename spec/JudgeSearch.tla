----------------------------- MODULE JudgeSearch -----------------------------
(***************************************************************************)
(* Verdicts which depend on all solutions of a puzzle.  After a first look  *)
(* at a record TLC explores the search machine of Search.tla from its       *)
(* puzzle; every solution found must be among those of the record.  The     *)
(* field known lists solutions found by the harness: they are only          *)
(* witnesses, which are checked here as well.                               *)
(***************************************************************************)
EXTENDS Search, Observed
VARIABLES vIdx, vPhase
Rec == LogLines[vIdx]
Distinct(list) == Cardinality(Set(list)) = Len(list)
Valid(s, given, list) == \A i \in DOMAIN list : IsSolutionOf(s, list[i], given)

\* C08: lists of solutions yielded by the solvers
BadLists(r, s) ==
    LET b == Seen(r.b) IN
    UNION {LET x == r.lists[k] IN {x.name \o ": " \o c : c \in Failing({
        <<"failed", x.err = "ok">>,
        <<"yields something that is no solution", Valid(s, b.num, x.got)>>,
        <<"yields a solution twice", Distinct(x.got)>>,
        <<"misses a solution", x.capped \/ Set(r.known) \subseteq Set(x.got)>>,
        <<"yielded board changed later", x.again = x.got>>,
        <<"yielded board has another shape", x.shapes \subseteq {s} >>})} : k \in DOMAIN r.lists}
    \cup Failing({<<"given board changed", Seen(r.after) = b>>})

\* C09: unique or not
BadUnique(r, s) ==
    IF r.err # "ok" THEN {"failed"}
    ELSE Failing({<<"two solutions, but called unique", r.unique = 0 \/ Len(r.known) < 2>>,
                  <<"one solution, but not called unique",
                    r.unique = 1 \/ Len(r.known) # 1>>,
                  <<"no solution, but called unique", r.unique # 1 \/ r.known # <<>> >>,
                  <<"no verdict", r.unique \in {0, 1}>>,
                  <<"board changed", Seen(r.after) = Seen(r.b)>>})

Witnessed(r, s) == Valid(s, r.b.num, r.known) /\ Distinct(r.known)
Shapes(x) == {<<x[i][1], x[i][2]>> : i \in DOMAIN x}
Normal(r) == IF r.kind # "solutions" THEN r
             ELSE [r EXCEPT !.lists = [k \in DOMAIN r.lists |->
                    [r.lists[k] EXCEPT !.shapes = Shapes(r.lists[k].shapes)]]]
Bad(r, s) == IF ~Witnessed(r, s) THEN {"HARNESS: wrong witness"}
             ELSE CASE r.kind = "solutions" -> BadLists(Normal(r), s)
                    [] r.kind = "unique" -> BadUnique(r, s)
\* what the exploration has to find nothing beyond
InAll(r, g) == CASE r.kind = "solutions" ->
                        \A k \in DOMAIN r.lists : r.lists[k].capped \/ g \in Set(r.lists[k].got)
                 [] r.kind = "unique" -> g \in Set(r.known)
\* nothing to explore if the record itself shows two solutions or was cut off
Explored(r) == CASE r.kind = "solutions" -> \E k \in DOMAIN r.lists : ~r.lists[k].capped
                 [] r.kind = "unique" -> Len(r.known) < 2

Init == /\ vIdx \in DOMAIN LogLines
        /\ SearchInit(<<LogLines[vIdx].w, LogLines[vIdx].h>>, LogLines[vIdx].b.num)
        /\ vPhase = "look"
Look == /\ vPhase = "look"
        /\ LET bad == Bad(Rec, vSize) IN
           /\ RejectAll(vIdx, bad)
           /\ Judged(vIdx)
           /\ vPhase' = IF bad = {} /\ Explored(Rec) THEN "explore" ELSE "end"
        /\ UNCHANGED <<vIdx, vSize, vGiven, vGrid>>
Explore == vPhase = "explore" /\ Place /\ UNCHANGED <<vIdx, vPhase>>
Arrive == /\ vPhase = "explore" /\ Found
          /\ RejectAll(vIdx, Failing({<<"a solution was missed", InAll(Rec, vGrid)>>}))
          /\ vPhase' = "end" /\ UNCHANGED <<vIdx, vSize, vGiven, vGrid>>
Next == Look \/ Explore \/ Arrive
=============================================================================
