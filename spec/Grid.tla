-------------------------------- MODULE Grid --------------------------------
(***************************************************************************)
(* Geometry of a sudoku whose boxes are w wide and h high.  n = w*h is the *)
(* number of rows, columns, boxes, parts and numbers.  Fields are          *)
(* positions 1..n*n counted row by row; rows, columns, boxes and parts are *)
(* counted from 0, as in the library.                                      *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, FiniteSetsExt, SequencesExt, TLC

N(w, h) == w * h
Cells(w, h) == 1..((w * h) * (w * h))
At(w, h, r, c) == r * (w * h) + c + 1
RowNo(w, h, p) == (p - 1) \div (w * h)
ColNo(w, h, p) == (p - 1) % (w * h)
\* There are h boxes side by side (n \div w = h).
BoxNo(w, h, p) == (RowNo(w, h, p) \div h) * h + (ColNo(w, h, p) \div w)
PartNo(w, h, p) == (RowNo(w, h, p) % h) * w + (ColNo(w, h, p) % w)

RowCells(w, h, i) == {p \in Cells(w, h) : RowNo(w, h, p) = i}
ColCells(w, h, i) == {p \in Cells(w, h) : ColNo(w, h, p) = i}
BoxCells(w, h, i) == {p \in Cells(w, h) : BoxNo(w, h, p) = i}
PartCells(w, h, i) == {p \in Cells(w, h) : PartNo(w, h, p) = i}

RowMates(w, h, p) == RowCells(w, h, RowNo(w, h, p))
ColMates(w, h, p) == ColCells(w, h, ColNo(w, h, p))
BoxMates(w, h, p) == BoxCells(w, h, BoxNo(w, h, p))
Surround(w, h, p) ==
    RowMates(w, h, p) \cup ColMates(w, h, p) \cup BoxMates(w, h, p)

-----------------------------------------------------------------------------
(* Facts about the geometry, checked for every small box shape in MCGrid. *)
Partition(parts, all) ==
    /\ UNION parts = all
    /\ \A a, b \in parts : a # b => a \cap b = {}
GeometryOk(w, h) ==
    LET n == w * h
        idx == 0..(n - 1)
        all == Cells(w, h)
        rows == {RowCells(w, h, i) : i \in idx}
        cols == {ColCells(w, h, i) : i \in idx}
        boxes == {BoxCells(w, h, i) : i \in idx}
        parts == {PartCells(w, h, i) : i \in idx}
    IN /\ \A g \in {rows, cols, boxes, parts} :
            /\ Partition(g, all)
            /\ Cardinality(g) = n
            /\ \A u \in g : Cardinality(u) = n
       /\ \A r \in rows, c \in cols : Cardinality(r \cap c) = 1
       /\ \A b \in boxes, u \in parts : Cardinality(b \cap u) = 1
       /\ \A b \in boxes, r \in rows : Cardinality(b \cap r) \in {0, w}
       /\ \A b \in boxes, c \in cols : Cardinality(b \cap c) \in {0, h}
       /\ \A p \in all : /\ At(w, h, RowNo(w, h, p), ColNo(w, h, p)) = p
                        /\ p \in BoxMates(w, h, p)
                        /\ Cardinality(Surround(w, h, p)) = 3 * n - w - h

-----------------------------------------------------------------------------
(* Tables, evaluated once by TLC for the sizes a model or a log needs. *)
CONSTANT SIZES          \* a set of pairs <<w, h>>

NN == TLCEval([s \in SIZES |-> s[1] * s[2]])
CELLS == TLCEval([s \in SIZES |-> Cells(s[1], s[2])])
NUMS == TLCEval([s \in SIZES |-> 1..(s[1] * s[2])])
ROWS == TLCEval([s \in SIZES |-> TLCEval([i \in 0..(s[1]*s[2]-1) |->
            TLCEval({At(s[1], s[2], i, c) : c \in 0..(s[1]*s[2]-1)})])])
COLS == TLCEval([s \in SIZES |-> TLCEval([i \in 0..(s[1]*s[2]-1) |->
            TLCEval({At(s[1], s[2], r, i) : r \in 0..(s[1]*s[2]-1)})])])
BOXES == TLCEval([s \in SIZES |-> TLCEval([i \in 0..(s[1]*s[2]-1) |->
            TLCEval(BoxCells(s[1], s[2], i))])])
PARTS == TLCEval([s \in SIZES |-> TLCEval([i \in 0..(s[1]*s[2]-1) |->
            TLCEval(PartCells(s[1], s[2], i))])])
ROWOF == TLCEval([s \in SIZES |-> TLCEval([p \in CELLS[s] |-> RowNo(s[1], s[2], p)])])
COLOF == TLCEval([s \in SIZES |-> TLCEval([p \in CELLS[s] |-> ColNo(s[1], s[2], p)])])
BOXOF == TLCEval([s \in SIZES |-> TLCEval([p \in CELLS[s] |-> BoxNo(s[1], s[2], p)])])
PARTOF == TLCEval([s \in SIZES |-> TLCEval([p \in CELLS[s] |-> PartNo(s[1], s[2], p)])])
LINES == TLCEval([s \in SIZES |-> TLCEval(
            {ROWS[s][i] : i \in 0..(NN[s]-1)} \cup {COLS[s][i] : i \in 0..(NN[s]-1)})])
BOXSET == TLCEval([s \in SIZES |-> TLCEval({BOXES[s][i] : i \in 0..(NN[s]-1)})])
UNITS == TLCEval([s \in SIZES |-> TLCEval(
            {ROWS[s][i] : i \in 0..(NN[s]-1)} \cup
            {COLS[s][i] : i \in 0..(NN[s]-1)} \cup
            {BOXES[s][i] : i \in 0..(NN[s]-1)})])
PEERS == TLCEval([s \in SIZES |-> TLCEval([p \in CELLS[s] |-> TLCEval(
            (ROWS[s][ROWOF[s][p]] \cup COLS[s][COLOF[s][p]]
                \cup BOXES[s][BOXOF[s][p]]) \ {p})])])
=============================================================================
