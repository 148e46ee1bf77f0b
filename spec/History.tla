------------------------------- MODULE History -------------------------------
(***************************************************************************)
(* Questions and what was asked before.  A program owns a heap of boards,  *)
(* changes them and, in between, asks questions about them (search, solve, *)
(* rate, hints, print, ...).  The library may remember whatever it likes,  *)
(* but it must not show: a question changes no board, and its answer is    *)
(* the one a program gets which made the same changes and asked nothing    *)
(* else.                                                                    *)
(* Operations are those of Board, and                                       *)
(*   [op |-> "load", board |-> ...]    a further board with this content    *)
(*   [op |-> "ask", q |-> question, b |-> board, x |-> argument]            *)
(***************************************************************************)
EXTENDS Board

Changing(e) == e.op # "ask"
HistoryNext(heap, e) ==
    CASE e.op = "load" -> Append(heap, e.board)
      [] e.op = "ask" -> heap
      [] OTHER -> OpNext(heap, e)

\* the history without its questions
Purged(hist) == SelectSeq(hist, Changing)
HeapAfter(hist) == FoldLeft(HistoryNext, <<>>, hist)
=============================================================================
