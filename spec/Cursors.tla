------------------------------- MODULE Cursors -------------------------------
(***************************************************************************)
(* Searches under way.  A heap of boards and a sequence of cursors:         *)
(*    [kind, b, left, begun, open]                                          *)
(* kind of search, board searched, results still to come (a sequence, in    *)
(* any order), whether a first result was asked for, and whether it goes on.*)
(* The only operation that changes a board is a write to it; the only one   *)
(* that changes a cursor is an operation on that cursor.                    *)
(***************************************************************************)
EXTENDS Board

\* searches which look at the board only once, when they begin
Snapshot == {"bruteforce", "dlx"}
Cursor(kind, b, all) == [kind |-> kind, b |-> b, left |-> all, begun |-> FALSE, open |-> TRUE]
Going(cur, e) == cur[e.c].open
Without(seq, i) == SubSeq(seq, 1, i - 1) \o SubSeq(seq, i + 1, Len(seq))
\* cursors which would see a change of board b
Watching(cur, b) == {i \in DOMAIN cur :
    cur[i].open /\ cur[i].b = b /\ ~(cur[i].begun /\ cur[i].kind \in Snapshot)}

\* the next result of a cursor: what may be given, and the cursor after it
MayGive(c, res) == c.open /\ \E i \in DOMAIN c.left : c.left[i] = res
Given(c, res) == [c EXCEPT !.begun = TRUE,
                           !.left = Without(@, CHOOSE i \in DOMAIN @ : @[i] = res)]
MayEnd(c) == ~c.open \/ c.left = <<>>
Ended(c) == [c EXCEPT !.begun = TRUE, !.open = FALSE, !.left = <<>>]

\* operations: open, next (with a result or the end), drop, write, solve, other
AllowedOp(heap, cur, e) ==
    CASE e.op = "next" -> IF e.end THEN MayEnd(cur[e.c]) ELSE MayGive(cur[e.c], e.res)
      [] OTHER -> TRUE
HeapNext(heap, e) ==
    IF e.op = "write"
    THEN [heap EXCEPT ![e.b] = SetCand(SetNum(@, e.p, e.v), e.p, Set(e.s))]
    ELSE heap
CursorsNext(cur, e) ==
    CASE e.op = "open" -> Append(cur, Cursor(e.kind, e.b, e.all))
      [] e.op = "next" -> [cur EXCEPT ![e.c] = IF e.end THEN Ended(@) ELSE Given(@, e.res)]
      [] e.op = "drop" -> [cur EXCEPT ![e.c] = Ended(@)]
      [] OTHER -> cur
=============================================================================
