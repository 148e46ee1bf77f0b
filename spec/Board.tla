-------------------------------- MODULE Board --------------------------------
(***************************************************************************)
(* Boards and a heap of boards.  A board is a record                       *)
(*    [w, h, num, cand]                                                    *)
(* with a number (0 = empty) and a set of candidates for every field.      *)
(* An operation is a record with a field op; OpNext gives the heap after   *)
(* it and OpResult the value it returns.                                   *)
(***************************************************************************)
EXTENDS Rules

Size(b) == <<b.w, b.h>>
BlankCand(b) == [b EXCEPT !.cand = NoCand(Size(b))]
NewBoard(w, h) == [w |-> w, h |-> h,
                   num |-> [p \in 1..((w*h)*(w*h)) |-> 0],
                   cand |-> [p \in 1..((w*h)*(w*h)) |-> {}]]
SetNum(b, p, v) == [b EXCEPT !.num[p] = v]
SetCand(b, p, c) == [b EXCEPT !.cand[p] = c]
RemCand(b, p, c) == [b EXCEPT !.cand[p] = @ \ c]
InitCand(b, filledOnly) ==
    [b EXCEPT !.cand = TLCEval([p \in DOMAIN b.num |->
        IF filledOnly /\ b.num[p] = 0 THEN b.cand[p] ELSE Calc(Size(b), b.num, p)])]
CopyBoard(b, withCand) == IF withCand THEN b ELSE BlankCand(b)

SameNumbers(a, b) == Len(a.num) = Len(b.num) /\ a.num = b.num
Differences(a, b) == {p \in DOMAIN a.num : a.num[p] # b.num[p]}
SameAll(a, b) == a.num = b.num /\ a.cand = b.cand

Sorted(S) == SetToSortSeq(S, <)
EmptySeq(b) == Sorted({p \in DOMAIN b.num : b.num[p] = 0})
FilledSeq(b) == Sorted({p \in DOMAIN b.num : b.num[p] # 0})

-----------------------------------------------------------------------------
(* The machine: a heap is a sequence of boards. *)
Set(seq) == {seq[i] : i \in DOMAIN seq}

OpNext(heap, e) ==
    CASE e.op = "new" -> Append(heap, NewBoard(e.w, e.h))
      [] e.op = "copy" -> Append(heap, CopyBoard(heap[e.b], e.c))
      [] e.op = "set" -> [heap EXCEPT ![e.b] = SetNum(@, e.p, e.v)]
      [] e.op = "setcand" -> [heap EXCEPT ![e.b] = SetCand(@, e.p, Set(e.s))]
      [] e.op = "remcand" -> [heap EXCEPT ![e.b] = RemCand(@, e.p, Set(e.s))]
      [] e.op = "movecand" ->
            [heap EXCEPT ![e.b2] = SetCand(@, e.p2, heap[e.b].cand[e.p])]
      [] e.op = "init" -> [heap EXCEPT ![e.b] = InitCand(@, e.c)]
      [] OTHER -> heap            \* every other operation only reads

\* the value returned by a reading operation, booleans as 0 and 1
Bit(x) == IF x THEN 1 ELSE 0
\* something else than a board which gives numbers for fields: those of a
\* board, apart from one field (0: none) which it lacks or has wrong
NumbersLike(heap, e) ==
    LET m == heap[e.like].num IN
    IF e.off = 0 THEN m
    ELSE [m EXCEPT ![e.off] = IF e.lack THEN -1 ELSE (@ + 1) % (heap[e.like].w * heap[e.like].h + 1)]
\* access to a row and column, counted from 0: is there such a field?
OnBoard(b, r, c) == r \in 0..(b.w * b.h - 1) /\ c \in 0..(b.w * b.h - 1)
OpResult(heap, e) ==
    CASE e.op = "get" -> <<heap[e.b].num[e.p]>>
      [] e.op = "getcand" -> Sorted(heap[e.b].cand[e.p])
      [] e.op = "empty" -> EmptySeq(heap[e.b])
      [] e.op = "filled" -> FilledSeq(heap[e.b])
      [] e.op = "iter" -> [p \in DOMAIN heap[e.b].num |-> p]
      [] e.op = "count" -> <<Cardinality({p \in DOMAIN heap[e.b].num : heap[e.b].num[p] # 0})>>
      [] e.op = "len" -> <<Len(heap[e.b].num)>>
      [] e.op = "eq" -> <<Bit(SameNumbers(heap[e.b], heap[e.b2]))>>
      [] e.op = "ne" -> <<Bit(~SameNumbers(heap[e.b], heap[e.b2]))>>
      [] e.op = "eqmap" -> <<Bit((NumbersLike(heap, e) = heap[e.b].num) = ~e.neg)>>
      [] e.op = "eqodd" -> <<Bit(e.neg)>>
      [] e.op = "diff" -> Sorted(Differences(heap[e.b], heap[e.b2]))
      [] e.op = "equals" -> <<Bit(IF e.c THEN SameAll(heap[e.b], heap[e.b2])
                                  ELSE SameNumbers(heap[e.b], heap[e.b2]))>>
      [] e.op = "shape" -> LET n == heap[e.b].w * heap[e.b].h IN
            <<heap[e.b].w, heap[e.b].h, heap[e.b].w, heap[e.b].h>>
            \o [i \in 1..n |-> i - 1] \o [i \in 1..n |-> i]
      [] e.op = "outside" -> <<Bit(~OnBoard(heap[e.b], e.r, e.c))>>
      [] OTHER -> <<>>
Reads == {"get", "getcand", "empty", "filled", "iter", "count", "len", "eq", "ne",
          "eqmap", "eqodd", "diff", "equals", "shape", "outside"}
=============================================================================
