-------------------------------- MODULE Values --------------------------------
(***************************************************************************)
(* A solving step as a value: its text and its place in the order of steps. *)
(* A step of technique t has the fields clues, aff and the numbers val, in   *)
(* whatever order they were given; fields are positions, so that their order *)
(* is the order of rows and columns.                                        *)
(***************************************************************************)
EXTENDS Techniques, Notation

Ascending(q) == SortSeq(q, <)
Canon(x) == [clues |-> Ascending(x.clues), aff |-> Ascending(x.aff), val |-> Ascending(x.val)]

\* the order of sequences: the first difference counts, a beginning comes first
FirstDiff(a, b) == {i \in DOMAIN a \cap DOMAIN b : a[i] # b[i]}
SeqBefore(a, b) ==
    LET d == FirstDiff(a, b) IN
    IF d = {} THEN Len(a) < Len(b) ELSE a[Min(d)] < b[Min(d)]
\* the order of steps: by clues, then by affected fields, then by numbers
Before(x, y) ==
    LET a == Canon(x)
        b == Canon(y)
    IN IF a.clues # b.clues THEN SeqBefore(a.clues, b.clues)
       ELSE IF a.aff # b.aff THEN SeqBefore(a.aff, b.aff)
       ELSE SeqBefore(a.val, b.val)
Same(x, y) == Canon(x) = Canon(y)
\* what the six comparisons give: <, <=, =, #, >, >=
Relation(x, y) == <<Before(x, y), Before(x, y) \/ Same(x, y), Same(x, y), ~Same(x, y),
                    Before(y, x), Before(y, x) \/ Same(x, y)>>

\* texts; n is the number of rows
PairText(p, n) == <<"(">> \o NumText((p - 1) \div n) \o <<",", " ">> \o NumText((p - 1) % n) \o <<")">>
TupleText(q) == IF Len(q) = 1 THEN <<"(">> \o q[1] \o <<",", ")">>
                ELSE <<"(">> \o Join(q, <<",", " ">>) \o <<")">>
FieldsText(q, n) == TupleText([i \in DOMAIN q |-> PairText(q[i], n)])
NumbersText(q) == TupleText([i \in DOMAIN q |-> NumText(q[i])])
T_at == <<" ", "a", "t", " ">>
\* name: the characters of the technique's name
StepText(name, t, x, n) ==
    LET y == Canon(x) IN
    IF t \in Writers
    THEN name \o T_at \o PairText(y.clues[1], n) \o <<":", " ">> \o NumText(y.val[1])
    ELSE name \o T_at \o FieldsText(y.clues, n) \o <<":", " ">> \o NumbersText(y.val)

-----------------------------------------------------------------------------
(* The changes a step consists of: [f, p, v], f being what is done to field  *)
(* p: setting its number, setting or removing candidates.                   *)
Do(b, a) ==
    CASE a.f = "number" -> SetNum(b, a.p, a.v[1])
      [] a.f = "candidates" -> SetCand(b, a.p, {a.v[i] : i \in DOMAIN a.v})
      [] a.f = "remove" -> RemCand(b, a.p, {a.v[i] : i \in DOMAIN a.v})
DoAll(b, as) == FoldLeft(Do, b, as)
ProperAction(a, s) ==
    /\ a.f \in {"number", "candidates", "remove"} /\ a.p \in CELLS[s]
    /\ a.f = "number" => Len(a.v) = 1
=============================================================================
