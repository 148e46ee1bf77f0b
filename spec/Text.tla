-------------------------------- MODULE Text --------------------------------
(***************************************************************************)
(* Boards as text.  A text is a sequence of characters (strings of length  *)
(* one).                                                                   *)
(***************************************************************************)
EXTENDS Board

Digits == <<"0", "1", "2", "3", "4", "5", "6", "7", "8", "9">>
DigitSet == {"0", "1", "2", "3", "4", "5", "6", "7", "8", "9"}
DigitVal == TLCEval([c \in DigitSet |-> CHOOSE i \in 0..9 : Digits[i + 1] = c])
Blank == {" ", "\t", "\n", "\r", "\f", "^v"}    \* ^v: vertical tab, as logged

RECURSIVE NumText(_)
NumText(k) == IF k < 10 THEN <<Digits[k + 1]>>
              ELSE Append(NumText(k \div 10), Digits[(k % 10) + 1])
IsNumText(t) == t # <<>> /\ \A i \in DOMAIN t : t[i] \in DigitSet
NumOf(t) == FoldLeft(LAMBDA acc, c : 10 * acc + DigitVal[c], 0, t)

\* the texts in a sequence, with sep between them
Join(texts, sep) ==
    IF texts = <<>> THEN <<>>
    ELSE FlattenSeq([i \in 1..(2 * Len(texts) - 1) |->
            IF i % 2 = 1 THEN texts[(i + 1) \div 2] ELSE sep])
\* the pieces of t between the characters in stop (a set of characters)
Pieces(t, stop) ==
    LET cut == TLCEval(SetToSortSeq({i \in DOMAIN t : t[i] \in stop}, <))
        m == Len(cut)
    IN [j \in 1..(m + 1) |->
          SubSeq(t, IF j = 1 THEN 1 ELSE cut[j - 1] + 1,
                    IF j = m + 1 THEN Len(t) ELSE cut[j] - 1)]
NonEmpty(texts) == SelectSeq(texts, LAMBDA x : x # <<>>)
Without(t, chars) == SelectSeq(t, LAMBDA c : c \notin chars)
Spaces(k) == [i \in 1..k |-> " "]
Dashes(k) == [i \in 1..k |-> "-"]

-----------------------------------------------------------------------------
(* Writing a board. *)
RowText(b, r, colsep) ==
    LET n == b.w * b.h IN
    Join([c \in 1..n |-> NumText(b.num[r * n + c])], colsep)
CandText(S, colsep) ==
    LET k == Sorted(S) IN Join([i \in DOMAIN k |-> NumText(k[i])], colsep)
Encode(b, rowsep, colsep, withCand) ==
    LET n == b.w * b.h
        nums == Join([r \in 1..n |-> RowText(b, r - 1, colsep)], rowsep)
        cands == Join([p \in 1..(n*n) |-> CandText(b.cand[p], colsep)], <<",">>)
    IN IF withCand THEN nums \o <<"|">> \o cands ELSE nums

-----------------------------------------------------------------------------
(* Reading a board.  o is a record of options:                             *)
(*   empty, nsep (<<>> = none), ssep, csep: characters; box: <<>> or <<w,h>> *)
(* The result is [ok |-> TRUE, b |-> board] or [ok |-> FALSE].              *)
IsSquare(k) == \E x \in 0..40 : x * x = k
Root(k) == CHOOSE x \in 0..40 : x * x = k
\* box shape for a row length, <<>> if there is none
ShapeFor(len) ==
    IF IsSquare(len) THEN <<Root(len), Root(len)>>
    ELSE LET d == {x \in 2..(len - 1) : len % x = 0} IN
         IF d = {} THEN <<>> ELSE <<Min(d), len \div Min(d)>>
AutoShape(count) == IF count > 0 /\ IsSquare(count) THEN ShapeFor(Root(count)) ELSE <<>>

Fail == [ok |-> FALSE]
Decode(t, o) ==
    LET keep == {o.empty, o.ssep, o.csep} \cup Set(o.nsep)
        \* layout whitespace
        laid == IF o.nsep = <<>> THEN Without(t, Blank \ keep)
                ELSE [i \in DOMAIN t |-> IF t[i] \in Blank \ keep THEN o.nsep[1] ELSE t[i]]
        cut == {i \in DOMAIN laid : laid[i] = o.ssep}
        numText == IF cut = {} THEN laid ELSE SubSeq(laid, 1, Min(cut) - 1)
        candText == IF cut = {} THEN <<>> ELSE SubSeq(laid, Min(cut) + 1, Len(laid))
        items(x) == IF o.nsep = <<>> THEN [i \in DOMAIN x |-> <<x[i]>>]
                    ELSE NonEmpty(Pieces(x, Set(o.nsep)))
        nums == TLCEval(items(numText))
        lists == TLCEval(IF candText = <<>> THEN <<>> ELSE
                 LET q == TLCEval(Pieces(candText, {o.csep})) IN
                 TLCEval([j \in DOMAIN q |-> TLCEval(items(q[j]))]))
        shape == IF o.box = <<>> THEN AutoShape(Len(nums)) ELSE o.box
        good(x) == x = <<o.empty>> \/ IsNumText(x)
    IN IF \/ shape = <<>>
          \/ \E i \in DOMAIN nums : ~good(nums[i])
          \/ \E j \in DOMAIN lists : \E i \in DOMAIN lists[j] : ~IsNumText(lists[j][i])
       THEN Fail
       ELSE [ok |-> TRUE,
             b |-> [w |-> shape[1], h |-> shape[2],
                    num |-> [p \in 1..(shape[1]*shape[2]*shape[1]*shape[2]) |->
                        IF p > Len(nums) \/ nums[p] = <<o.empty>> THEN 0 ELSE NumOf(nums[p])],
                    cand |-> [p \in 1..(shape[1]*shape[2]*shape[1]*shape[2]) |->
                        IF p > Len(lists) THEN {}
                        ELSE {NumOf(lists[p][i]) : i \in DOMAIN lists[p]}]]]
\* options matching an encoding
ReadOptions(b, rowsep, colsep) ==
    [empty |-> "0", ssep |-> "|", csep |-> ",", box |-> <<b.w, b.h>>, nsep |-> colsep]
\* separators for which a text can be read back: the column separator is also
\* the number separator; rows may be divided by it or by whitespace
RoundTrips(b, rowsep, colsep, withCand) ==
    LET r == Decode(Encode(b, rowsep, colsep, withCand), ReadOptions(b, rowsep, colsep))
    IN r.ok /\ r.b = (IF withCand THEN b ELSE BlankCand(b))

-----------------------------------------------------------------------------
(* The printed board, given the width of a field.                          *)
PadLeft(t, k) == IF Len(t) >= k THEN t ELSE Spaces(k - Len(t)) \o t
PadRight(t, k) == IF Len(t) >= k THEN t ELSE t \o Spaces(k - Len(t))
\* v: record of options cand (BOOLEAN), sep, prefix (texts), right (BOOLEAN)
FieldText(b, p, v) ==
    IF b.num[p] # 0 THEN NumText(b.num[p])
    ELSE IF ~v.cand THEN <<>>
    ELSE v.prefix \o CandText(b.cand[p], v.sep)
ViewRow(b, r, v, fw) ==
    LET n == b.w * b.h
        group(g) == Join([k \in 1..b.w |->
            LET x == FieldText(b, r * n + (g - 1) * b.w + k, v) IN
            IF v.right THEN PadLeft(x, fw) ELSE PadRight(x, fw)], <<" ">>)
    IN Join([g \in 1..b.h |-> group(g)], <<" ", "|", " ">>)
ViewRule(b, fw) ==
    Join([g \in 1..b.h |-> Dashes(b.w * fw + b.w - 1)], <<"-", "+", "-">>)
\* lines of the printed board: h rows, a rule, h rows, ...
ViewLines(b, v, fw) ==
    LET n == b.w * b.h IN
    [i \in 1..(n + b.w - 1) |->
        IF i % (b.h + 1) = 0 THEN ViewRule(b, fw)
        ELSE ViewRow(b, i - 1 - ((i - 1) \div (b.h + 1)), v, fw)]
LongestEntry(b, v) ==
    Max({Len(FieldText(b, p, v)) : p \in DOMAIN b.num})
\* Length of a row of fields of width fw, and the width for a given length.
RowLength(b, fw) == b.w * b.h * fw + (b.w - 1) * b.h + 3 * (b.h - 1)
FieldWidth(b, len) ==
    LET rest == len - (b.w - 1) * b.h - 3 * (b.h - 1) IN
    IF rest > 0 /\ rest % (b.w * b.h) = 0 THEN rest \div (b.w * b.h) ELSE 0
DefaultSep(b) == IF b.w * b.h > 9 THEN <<",">> ELSE <<>>
=============================================================================
