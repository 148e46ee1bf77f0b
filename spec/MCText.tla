------------------------------- MODULE MCText -------------------------------
(* Writing and reading boards on a small scale: every number assignment and *)
(* many candidate assignments of small boards, numbers above 9 included.    *)
EXTENDS Text
CONSTANT DEEP
MCSizes == {<<1, 1>>, <<1, 2>>, <<2, 1>>, <<2, 2>>, <<1, 3>>}
VARIABLES vBoard, vReady
CandSets == {{}, {1}, {2}, {1, 2}, {1, 12}, {3, 10}}
Boards ==
    {[w |-> 1, h |-> 1, num |-> <<x>>, cand |-> <<c>>] : x \in {0, 1}, c \in CandSets}
    \cup {[w |-> z[1], h |-> z[2], num |-> <<a, b, c, d>>, cand |-> <<e, f, g, k>>] :
        z \in {<<1, 2>>, <<2, 1>>}, a, b, c, d \in {0, 2, 11},
        e, f \in CandSets, g, k \in (IF DEEP THEN CandSets ELSE {{}, {2, 10}})}
Init == vBoard \in Boards /\ vReady = FALSE
Next == ~vReady /\ vReady' = TRUE /\ UNCHANGED vBoard
Separators == {<<<<>>, <<>>>>, <<<<"\n">>, <<>>>>, <<<<"\n">>, <<" ">>>>, <<<<" ", "\n">>, <<" ">>>>,
               <<<<";">>, <<";">>>>, <<<<" ">>, <<"-">>>>}
Small == /\ \A p \in DOMAIN vBoard.num : vBoard.num[p] <= 9
         /\ \A p \in DOMAIN vBoard.cand : \A c \in vBoard.cand[p] : c <= 9
RoundTrip == vReady => \A q \in Separators, k \in BOOLEAN :
    (q[2] # <<>> \/ Small) => RoundTrips(vBoard, q[1], q[2], k)
\* a text of plain digits has one reading, and layout does not matter
Layout == (vReady /\ Small) =>
    LET t == Encode(vBoard, <<>>, <<>>, TRUE)
        o == ReadOptions(vBoard, <<>>, <<>>)
    IN \A i \in 0..Len(t) : Decode(SubSeq(t, 1, i) \o <<"\n", " ">> \o SubSeq(t, i + 1, Len(t)), o)
                            = Decode(t, o)
Shapes == (vReady /\ Len(vBoard.num) = 1) => \A k \in 1..36 : LET s == ShapeFor(k) IN
    IF s = <<>> THEN \A x \in 2..(k-1) : k % x # 0
    ELSE s[1] * s[2] = k /\ (IsSquare(k) => s[1] = s[2])
ViewWidths == vReady => \A q \in BOOLEAN, r \in BOOLEAN : LET v == [cand |-> q, right |-> r, sep |-> <<",">>, prefix |-> <<"*">>]
                   fw == LongestEntry(vBoard, v) + 1
                   L == ViewLines(vBoard, v, fw) IN
    /\ \A i \in DOMAIN L : Len(L[i]) = RowLength(vBoard, fw)
    /\ FieldWidth(vBoard, Len(L[1])) = fw
=============================================================================
