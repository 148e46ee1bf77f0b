----------------------------- MODULE MCNotation -----------------------------
(* Notation on a small scale: every set of fields of small boards is written *)
(* and read back in every style; every small expression means what its tree  *)
(* means; numbers above 9 are covered by few-field sets of a 5x2 board.      *)
EXTENDS Notation
CONSTANT MAXFIELDS
MCSizes == {<<2, 2>>, <<1, 3>>, <<3, 1>>, <<1, 2>>, <<5, 2>>, <<1, 1>>}
VARIABLES vShape, vFields, vTree, vReady
notVars == <<vShape, vFields, vTree, vReady>>
Big == {1, 9, 10, 11, 30, 91, 100}
NumLists == {<<1>>, <<2>>, <<2, 1>>, <<1, 2>>}
Parts(z) == {<<<<a, n>>>> : a \in Letters, n \in NumLists} \cup
    {<<<<a[1], n>>, <<a[2], m>>>> : a \in {<<"r", "c">>, <<"c", "r">>, <<"b", "p">>, <<"p", "b">>,
        <<"r", "b">>, <<"b", "c">>, <<"p", "c">>, <<"r", "p">>}, n, m \in NumLists} \cup
    {<<<<"p", n>>, <<"c", <<2>>>>, <<"r", m>>>> : n, m \in NumLists}
Trees(z) == {<<g>> : g \in Parts(z)} \cup {<<g, k>> : g \in {<<<<"r", <<1>>>>, <<"c", <<2, 1>>>>>>, <<<<"b", <<2>>>>>>}, k \in Parts(z)}
Init == /\ vReady = FALSE
        /\ \/ /\ vShape \in {<<1, 3>>, <<3, 1>>, <<1, 2>>}
              /\ vFields \in SUBSET CELLS[vShape] \ {{}} /\ vTree = <<>>
           \/ /\ vShape = <<2, 2>> /\ vTree = <<>>
              /\ vFields \in UNION {kSubset(k, 1..16) : k \in 1..MAXFIELDS}
           \/ /\ vShape = <<5, 2>> /\ vTree = <<>>
              /\ vFields \in SUBSET Big \ {{}}
           \/ /\ vShape \in {<<2, 2>>, <<1, 3>>, <<5, 2>>} /\ vFields = {} /\ vTree \in Trees(vShape)
Next == ~vReady /\ vReady' = TRUE /\ UNCHANGED <<vShape, vFields, vTree>>
Seps == {<<<<",">>, <<>>>>, <<<<";">>, <<".">>>>, <<<<" ">>, <<>>>>, <<<<",">>, <<",">>>>, <<<<",", " ">>, <<>>>>}
RoundTrip == (vReady /\ vFields # {}) => \A q \in Seps, m \in {"rows", "boxes", "auto"} :
    Read(vShape, Write(vShape, vFields, m, q[1], q[2]), q[1], q[2]) = [ok |-> TRUE, fields |-> vFields]
TreesMean == (vReady /\ vTree # <<>>) => \A q \in Seps :
    Read(vShape, Render(vShape, vTree, q[1], q[2]), q[1], q[2]) = [ok |-> TRUE, fields |-> Meaning(vShape, vTree)]
Spaced == (vReady /\ vTree # <<>>) => LET t == Render(vShape, vTree, Comma, <<>>) IN \A i \in 0..Len(t) :
    Read(vShape, SubSeq(t, 1, i) \o <<" ">> \o SubSeq(t, i + 1, Len(t)), Comma, <<>>)
        = [ok |-> TRUE, fields |-> Meaning(vShape, vTree)]
\* any proper prefix ending in an axis letter is malformed
Cut == (vReady /\ vTree # <<>>) => LET t == Render(vShape, vTree, Comma, <<>>) IN \A i \in 1..Len(t) :
    t[i] \in Letters => ~Read(vShape, SubSeq(t, 1, i), Comma, <<>>).ok
MovesRoundTrip == (vReady /\ vFields # {}) =>
    /\ \A v \in 1..3 : ReadMove(vShape, WriteMove(vShape, [kind |-> "set", fields |-> vFields, number |-> v]))
            = [ok |-> TRUE, kind |-> "set", fields |-> vFields, number |-> v]
    /\ \A c \in {{}, {1}, {2, 3}, {1, 3, 9}} \cup (IF NN[vShape] > 9 THEN {{10}, {1, 10}, {1, 2, 12}} ELSE {}) :
        LET m == [kind |-> "remove", fields |-> vFields, cands |-> c]
            r == [ok |-> TRUE, kind |-> "remove", fields |-> vFields, cands |-> c]
        IN ReadMove(vShape, WriteMove(vShape, m)) = r /\ ReadMove(vShape, WriteMinus(vShape, m)) = r
=============================================================================
