---------------------------- MODULE JudgeGenerate ----------------------------
(***************************************************************************)
(* Verdicts on generated puzzles and grids (C17, C18, C19).  Uniqueness is  *)
(* decided by exploring Search.tla from the puzzle; that a further group of *)
(* fields cannot be emptied is shown by a second solution (a witness of the *)
(* harness, which is checked here), or decided by enumeration without one.  *)
(***************************************************************************)
EXTENDS Search, Generate, Observed
VARIABLES vIdx, vPhase
Rec == LogLines[vIdx]
Shape(r) == <<r.w, r.h>>
RightShape(r) == Whole(r.got) /\ <<r.got.w, r.got.h>> = Shape(r)
InRange(r) == \A p \in DOMAIN r.got.num : r.got.num[p] \in 0..(r.w * r.h)

\* C17
Groups(s, sym, num) == {Orbit(s, sym, p) : p \in Filled(s, num)}
Second(r, s, o) ==
    LET less == Cleared(r.got.num, o)
        x == {i \in DOMAIN r.seconds : r.seconds[i].p \in o}
        sol == r.known[1]
    IN \/ \E i \in x : IsSolutionOf(s, r.seconds[i].num, less) /\ r.seconds[i].num # sol
       \/ ~UniqueSolution(s, less, sol)
\* the harness found no solution: there is none, or its search was cut off
NoSolution(r, s) ==
    IF ~Solvable(s, r.got.num) THEN {"no solution"} ELSE {"HARNESS: no witness"}
BadPuzzle(r) ==
    LET s == Shape(r) IN
    IF r.err # "ok" THEN {"failed"}
    ELSE IF ~RightShape(r) \/ ~InRange(r) THEN {"no board of the requested shape"}
    ELSE IF \E i \in DOMAIN r.known : ~IsSolutionOf(s, r.known[i], r.got.num) THEN {"HARNESS: wrong witness"}
    ELSE IF Len(r.known) > 1 /\ r.known[1] # r.known[2] THEN {"more than one solution"}
    ELSE IF r.known = <<>> THEN NoSolution(r, s)
    ELSE Failing({<<"conflict", ConflictFree(s, r.got.num)>>,
                  <<"further fields could be emptied",
                    ~r.whole \/ \A o \in Groups(s, r.sym, r.got.num) : Second(r, s, o)>>})
BadGrid(r) == IF r.err # "ok" THEN {"failed"}
    ELSE IF ~RightShape(r) THEN {"no board of the requested shape"}
    ELSE Failing({<<"not a complete grid without conflicts", IsGrid(Shape(r), r.got.num)>>})

\* C18
Count(num) == Cardinality({p \in DOMAIN num : num[p] # 0})
Fields(r) == r.w * r.h * r.w * r.h
BadSized(r) ==
    LET valid == r.least <= Fields(r) /\ r.sym \in Symmetries IN
    IF ~valid THEN Failing({<<"impossible request not rejected with ValueError", r.err = "ValueError">>})
    ELSE IF r.err # "ok" THEN {"failed"}
    ELSE IF ~RightShape(r) \/ ~InRange(r) THEN {"no board of the requested shape"}
    ELSE Failing({
        <<"fewer fields filled than requested", Count(r.got.num) >= r.least>>,
        <<"pattern without the requested symmetry", Symmetric(Shape(r), r.sym, r.got.num)>>,
        <<"not a full grid", r.least # Fields(r) \/ IsGrid(Shape(r), r.got.num)>>})

\* C19
Emptied(r) == {p \in DOMAIN r.b.num : r.b.num[p] = 0}
\* two grids differ in four fields at least (MCGenerate): success is certain
Certain(r) == r.tries # 0 /\ Cardinality(Emptied(r)) < 4
BadTemplate(r) ==
    LET s == Shape(r)
        base == Failing({<<"template changed", Seen(r.after) = Seen(r.b)>>,
                         <<"other failure than RuntimeError", r.err \in {"ok", "RuntimeError"}>>})
    IN IF r.err # "ok"
       THEN base \cup Failing({
            <<"gave up although every grid fits", ~Certain(r)>>,
            <<"gave up although the tries were unlimited", r.tries >= 0>>,
            \* single: of 400 attempts with one try each
            <<"gave up although single tries succeed", r.tries < 4000 \/ r.single < 8>>,
            <<"gave up although many grids fit", r.tries < 100 \/ r.tested = 0 \/ 2 * r.fitting < r.tested>>})
       ELSE IF ~RightShape(r) \/ ~InRange(r) THEN base \cup {"no board of the shape of the template"}
       ELSE IF \E i \in DOMAIN r.known : ~IsSolutionOf(s, r.known[i], r.got.num) THEN {"HARNESS: wrong witness"}
       ELSE IF r.known = <<>> THEN base \cup NoSolution(r, s)
       ELSE base \cup Failing({
            <<"puzzle without any try", r.tries # 0>>,
            <<"filled elsewhere than the template", \A p \in DOMAIN r.got.num : (r.got.num[p] = 0) = (r.b.num[p] = 0)>>,
            <<"more than one solution", Len(r.known) < 2>>,
            <<"conflict", ConflictFree(s, r.got.num)>>})

Bad(r) == CASE r.kind = "puzzle" -> BadPuzzle(r)
            [] r.kind = "grid" -> BadGrid(r)
            [] r.kind = "sized" -> BadSized(r)
            [] r.kind = "template" -> BadTemplate(r)
Explored(r) == r.kind \in {"puzzle", "template"} /\ r.err = "ok"

Init == /\ vIdx \in DOMAIN LogLines
        /\ SearchInit(<<LogLines[vIdx].w, LogLines[vIdx].h>>, LogLines[vIdx].got.num)
        /\ vPhase = "look"
Look == /\ vPhase = "look"
        /\ LET bad == TLCEval(Bad(Rec)) IN
           /\ RejectAll(vIdx, bad)
           /\ vPhase' = IF bad = {} /\ Explored(Rec) THEN "explore" ELSE "end"
           /\ Judged(vIdx)
        /\ UNCHANGED <<vIdx, vSize, vGiven, vGrid>>
Explore == vPhase = "explore" /\ Place /\ UNCHANGED <<vIdx, vPhase>>
Arrive == /\ vPhase = "explore" /\ Found
          /\ RejectAll(vIdx, Failing({<<"more than one solution", vGrid = Rec.known[1]>>}))
          /\ vPhase' = "end" /\ UNCHANGED <<vIdx, vSize, vGiven, vGrid>>
Next == Look \/ Explore \/ Arrive
=============================================================================
