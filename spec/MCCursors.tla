------------------------------ MODULE MCCursors ------------------------------
(***************************************************************************)
(* Several searches for solutions under way at once, on a small scale.      *)
(* Each works on partial grids of its own (SHARED = FALSE).  Whatever the   *)
(* order in which they are advanced and boards are written, what a search   *)
(* has given and what its partial grids still lead to are exactly the       *)
(* solutions of the puzzle as it was at the beginning, each once.           *)
(* (With SHARED = TRUE all work in the board itself, and TLC shows how that *)
(* goes wrong; not part of the checks.)                                     *)
(* With -simulate schedules are printed for the replay in the real code.    *)
(***************************************************************************)
EXTENDS Cursors, Json
CONSTANTS START, MAXCUR, SHARED, MAXOPS, EMIT
VARIABLES vHeap, vCur, vHist
cursorVars == <<vHeap, vCur, vHist>>
MCSizes == {<<1, 2>>, <<1, 3>>}
GenSizes == {<<1, 1>>}
Full2 == [NewBoard(1, 2) EXCEPT !.num = <<1, 0, 0, 0>>]
TwoBoards == <<NewBoard(1, 2), Full2>>
Latin == <<[NewBoard(1, 3) EXCEPT !.num = <<1, 2, 3, 2, 0, 0, 0, 0, 0>>],
           [NewBoard(1, 3) EXCEPT !.num = <<0, 0, 3, 0, 0, 0, 0, 0, 2>>]>>
None == <<NewBoard(1, 1), NewBoard(1, 1)>>

\* a search: [b, start, pending (partial grids), given, begun, open]
Search(b) == [b |-> b, start |-> <<>>, pending |-> {}, given |-> {}, begun |-> FALSE, open |-> TRUE]
Open == /\ Len(vCur) < MAXCUR
        /\ \E b \in DOMAIN vHeap : vCur' = Append(vCur, Search(b))
        /\ UNCHANGED vHeap
Begin == \E i \in DOMAIN vCur :
    /\ vCur[i].open /\ ~vCur[i].begun
    /\ LET num == vHeap[vCur[i].b].num IN
       vCur' = [vCur EXCEPT ![i] = [@ EXCEPT !.begun = TRUE, !.start = num,
                    !.pending = IF ConflictFree(Size(vHeap[vCur[i].b]), num) THEN {num} ELSE {}]]
    /\ UNCHANGED vHeap
\* one step of the work: a partial grid is given or branched
Work == \E i \in DOMAIN vCur : \E g \in vCur[i].pending :
    LET b == vCur[i].b
        s == Size(vHeap[b])
        \* working in place: the grid is what the board holds now
        real == IF SHARED THEN vHeap[b].num ELSE g
        full == IsFull(s, real)
        more == IF full THEN {} ELSE {[real EXCEPT ![x[1]] = x[2]] : x \in Branches(s, real)}
    IN /\ vCur[i].open
       /\ vCur' = [vCur EXCEPT ![i].pending = (@ \ {g}) \cup more,
                               ![i].given = IF full THEN @ \cup {real} ELSE @]
       /\ IF SHARED /\ more # {}
          THEN \E x \in more : vHeap' = [vHeap EXCEPT ![b].num = x]
          ELSE UNCHANGED vHeap
Close == \E i \in DOMAIN vCur : /\ vCur[i].open
                                /\ vCur' = [vCur EXCEPT ![i].open = FALSE, ![i].pending = {}]
                                /\ UNCHANGED vHeap
\* only boards which no search has still to look at
Write == \E b \in DOMAIN vHeap, p \in {1, 4}, v \in 0..1 :
    /\ \A i \in DOMAIN vCur : vCur[i].b = b => vCur[i].begun \/ ~vCur[i].open
    /\ vHeap' = [vHeap EXCEPT ![b] = SetNum(@, p, v)] /\ UNCHANGED vCur
Init == vHeap = START /\ vCur = <<>> /\ vHist = <<>>
Next == (Open \/ Begin \/ Work \/ Close \/ Write) /\ UNCHANGED vHist

Complete == \A i \in DOMAIN vCur : vCur[i].begun =>
    LET c == vCur[i]
        s == Size(vHeap[c.b])
        all == Solutions(s, c.start)
        rest == {g \in all : \E q \in c.pending : Extends(g, q)}
    IN /\ c.given \subseteq all
       /\ c.open => c.given \cup rest = all
       /\ c.given \cap rest = {}
\* each solution by one way only
Once == \A i \in DOMAIN vCur : \A q, r \in vCur[i].pending :
    q # r => ~\E g \in Solutions(Size(vHeap[vCur[i].b]), vCur[i].start) : Extends(g, q) /\ Extends(g, r)
\* searching never changes a board, an abandoned search no other one
Alone == [][/\ (vCur' # vCur => vHeap' = vHeap)
            /\ Cardinality({i \in DOMAIN vCur : vCur'[i] # vCur[i]}) <= 1]_cursorVars

-----------------------------------------------------------------------------
(* Random schedules.  Here cursors are only [kind, b, begun, open]. *)
One(S) == {RandomElement(S)}
Kinds == <<"bruteforce", "dlx", "bruteforce", "dlx", "hints", "hints", "find", "find", "conflicts",
           "iterate">>
Ops == <<"open", "open", "next", "next", "next", "next", "next", "next", "drop", "write", "write",
         "scribble", "scribble", "scribble", "scribble", "apply", "apply", "solve", "ask", "ask">>
Seers(b) == {i \in DOMAIN vCur : vCur[i].open /\ vCur[i].b = b
                /\ ~(vCur[i].begun /\ vCur[i].kind \in Snapshot)}
Plain(e) == vHist' = Append(vHist, e) /\ UNCHANGED <<vHeap, vCur>>
GenNext ==
    IF Len(vHist) >= MAXOPS
    THEN /\ Len(vHist) = MAXOPS
         /\ PrintT("HIST|" \o ToJson(vHist))
         /\ vHist' = Append(vHist, [op |-> "done"]) /\ UNCHANGED <<vHeap, vCur>>
    ELSE \E o \in One(1..Len(Ops)), k \in One(1..Len(Kinds)), b \in One(DOMAIN vHeap),
            i \in One(1..MAXCUR), x \in One(0..999) :
         LET op == Ops[o] IN
         IF (op = "open" /\ Len(vCur) < MAXCUR) \/ vCur = <<>>
         THEN /\ vHist' = Append(vHist, [op |-> "open", kind |-> Kinds[k], b |-> b, x |-> x])
              /\ vCur' = Append(vCur, [kind |-> Kinds[k], b |-> b, begun |-> FALSE, open |-> TRUE])
              /\ UNCHANGED vHeap
         ELSE LET c == ((i - 1) % Len(vCur)) + 1 IN
         IF op = "drop"
         THEN /\ vHist' = Append(vHist, [op |-> "drop", c |-> c])
              /\ vCur' = [vCur EXCEPT ![c].open = FALSE] /\ UNCHANGED vHeap
         ELSE IF op = "write" /\ Seers(b) = {} THEN Plain([op |-> "write", b |-> b, x |-> x])
         ELSE IF op \in {"scribble", "apply"} THEN Plain([op |-> op, c |-> c, x |-> x])
         ELSE IF op \in {"solve", "ask"} THEN Plain([op |-> op, b |-> b, c |-> c, x |-> x])
         ELSE /\ vHist' = Append(vHist, [op |-> "next", c |-> c])
              /\ vCur' = [vCur EXCEPT ![c].begun = TRUE] /\ UNCHANGED vHeap
=============================================================================
