------------------------------ MODULE Notation ------------------------------
(***************************************************************************)
(* Coordinate notation (r1c2, b3p4, ...) and moves written with it.        *)
(* Sets of fields are sets of positions; texts are character sequences.    *)
(***************************************************************************)
EXTENDS Text

Letters == {"r", "c", "b", "p"}
Axis(s, x, k) == CASE x = "r" -> ROWS[s][k - 1] [] x = "c" -> COLS[s][k - 1]
                   [] x = "b" -> BOXES[s][k - 1] [] x = "p" -> PARTS[s][k - 1]
\* the separator for numbers which is really used
NumSep(s, nsep) == IF nsep = <<>> /\ NN[s] > 9 THEN <<",">> ELSE nsep

-----------------------------------------------------------------------------
(* Writing.  line maps a field to its line (row or box), spot to its place. *)
Numbers(S, nsep) ==
    LET k == Sorted(S) IN Join([i \in DOMAIN k |-> NumText(k[i] + 1)], nsep)
WriteWith(S, line, spot, a, b, sep, nsep) ==
    LET lines == {line[p] : p \in S}
        spots == TLCEval([x \in lines |-> {spot[p] : p \in {q \in S : line[q] = x}}])
        groups == {{y \in lines : spots[y] = spots[x]} : x \in lines}
        ordered == SetToSortSeq(groups, LAMBDA g, k : Min(g) < Min(k))
    IN Join([i \in DOMAIN ordered |->
               <<a>> \o Numbers(ordered[i], nsep) \o <<b>>
               \o Numbers(spots[Min(ordered[i])], nsep)], sep)
WriteRows(s, S, sep, nsep) ==
    WriteWith(S, ROWOF[s], COLOF[s], "r", "c", sep, NumSep(s, nsep))
WriteBoxes(s, S, sep, nsep) ==
    WriteWith(S, BOXOF[s], PARTOF[s], "b", "p", sep, NumSep(s, nsep))
Write(s, S, mode, sep, nsep) ==
    LET r == TLCEval(WriteRows(s, S, sep, nsep))
        b == TLCEval(WriteBoxes(s, S, sep, nsep))
    IN CASE mode = "rows" -> r
         [] mode = "boxes" -> b
         [] mode = "auto" -> IF Len(b) < Len(r) THEN b ELSE r

-----------------------------------------------------------------------------
(* Reading. *)
NoSet == [ok |-> FALSE]
GroupCuts(t, sep) ==
    {i \in 1..(Len(t) - Len(sep)) :
        SubSeq(t, i, i + Len(sep) - 1) = sep /\ t[i + Len(sep)] \in Letters}
GroupTexts(t, sep) ==
    LET cut == TLCEval(SetToSortSeq(GroupCuts(t, sep), <))
        m == Len(cut)
    IN [j \in 1..(m + 1) |->
          SubSeq(t, IF j = 1 THEN 1 ELSE cut[j - 1] + Len(sep),
                    IF j = m + 1 THEN Len(t) ELSE cut[j] - 1)]
\* the fields of one group
ReadGroup(s, g, nsep) ==
    LET at == TLCEval(SetToSortSeq({i \in DOMAIN g : g[i] \in Letters}, <))
        m == Len(at)
        axes == [j \in 1..m |-> g[at[j]]]
        body(j) == SubSeq(g, at[j] + 1, IF j = m THEN Len(g) ELSE at[j + 1] - 1)
        numbers(x) == IF nsep = <<>> THEN [i \in DOMAIN x |-> <<x[i]>>] ELSE Pieces(x, Set(nsep))
        nums == TLCEval([j \in 1..m |-> TLCEval(numbers(body(j)))])
    IN IF \/ m = 0
          \/ at[1] # 1
          \/ Cardinality(Set(axes)) # m
          \/ \E i \in DOMAIN g : g[i] \notin Letters \cup DigitSet \cup Set(nsep)
          \/ \E j \in 1..m : nums[j] = <<>> \/ \E i \in DOMAIN nums[j] :
                ~IsNumText(nums[j][i]) \/ NumOf(nums[j][i]) \notin 1..NN[s]
       THEN NoSet
       ELSE [ok |-> TRUE, fields |->
              {p \in CELLS[s] : \A j \in 1..m : \E i \in DOMAIN nums[j] :
                    p \in Axis(s, axes[j], NumOf(nums[j][i]))}]
Read(s, t, sep, nsep0) ==
    LET nsep == NumSep(s, nsep0)
        clean == IF (Set(sep) \cup Set(nsep)) \cap Blank # {} THEN t ELSE Without(t, Blank)
        gt == TLCEval(GroupTexts(clean, sep))
        gs == TLCEval([j \in DOMAIN gt |-> ReadGroup(s, gt[j], nsep)])
    IN IF \E j \in DOMAIN gs : ~gs[j].ok THEN NoSet
       ELSE [ok |-> TRUE, fields |-> UNION {gs[j].fields : j \in DOMAIN gs}]

-----------------------------------------------------------------------------
(* Expressions as trees, and what they mean: a sequence of groups, a group  *)
(* is a sequence of <<axis, sequence of numbers>>.                          *)
Meaning(s, tree) ==
    UNION {{p \in CELLS[s] : \A j \in DOMAIN tree[g] :
                \E i \in DOMAIN tree[g][j][2] : p \in Axis(s, tree[g][j][1], tree[g][j][2][i])} :
           g \in DOMAIN tree}
Render(s, tree, sep, nsep) ==
    Join([g \in DOMAIN tree |->
        FlattenSeq([j \in DOMAIN tree[g] |->
            <<tree[g][j][1]>> \o Join([i \in DOMAIN tree[g][j][2] |-> NumText(tree[g][j][2][i])],
                                      NumSep(s, nsep))])], sep)

-----------------------------------------------------------------------------
(* Moves: [kind |-> "set", fields, number] or [kind |-> "remove", fields,   *)
(* cands].  The numbers of a removal are separated like those of fields.    *)
Comma == <<",">>
WriteMove(s, m) ==
    Write(s, m.fields, "auto", Comma, <<>>) \o
    (IF m.kind = "set" THEN <<"=">> \o NumText(m.number)
     ELSE <<"<", ">">> \o CandText(m.cands, NumSep(s, <<>>)))
WriteMinus(s, m) == <<"-">> \o CandText(m.cands, NumSep(s, <<>>)) \o <<" ">> \o Write(s, m.fields, "auto", Comma, <<>>)
Trim(t) ==
    LET k == {i \in DOMAIN t : t[i] \notin Blank} IN
    IF k = {} THEN <<>> ELSE SubSeq(t, Min(k), Max(k))
NoMove == [ok |-> FALSE]
\* fields, then what to do with them
MoveOf(kind, r, arg) == IF ~r.ok THEN NoMove
    ELSE IF kind = "set" THEN [ok |-> TRUE, kind |-> "set", fields |-> r.fields, number |-> arg]
    ELSE [ok |-> TRUE, kind |-> "remove", fields |-> r.fields, cands |-> arg]
\* the numbers of a removal, NoCands if it is none
NoCands == {-1}
CandsOf(s, x) ==
    IF x = <<>> THEN {}
    ELSE IF NN[s] <= 9
    THEN IF \A i \in DOMAIN x : x[i] \in DigitSet THEN {DigitVal[x[i]] : i \in DOMAIN x} ELSE NoCands
    ELSE LET ps == Pieces(x, {","}) IN
         IF \A i \in DOMAIN ps : IsNumText(Trim(ps[i])) THEN {NumOf(Trim(ps[i])) : i \in DOMAIN ps} ELSE NoCands
ReadMove(s, raw) ==
    LET t == Trim(raw)
        sp == {i \in DOMAIN t : t[i] = " "}
        ne == {i \in 1..(Len(t) - 1) : t[i] = "<" /\ t[i + 1] = ">"}
        eq == {i \in DOMAIN t : t[i] = "="}
        rd(a, b) == Read(s, SubSeq(t, a, b), Comma, <<>>)
    IN IF t = <<>> THEN NoMove
       ELSE IF t[1] = "-" THEN
            LET e == IF sp = {} THEN Len(t) + 1 ELSE Min(sp)
                d == SubSeq(t, 2, e - 1)
            IN MoveOf("remove", IF CandsOf(s, d) = NoCands THEN NoSet ELSE rd(e + 1, Len(t)), CandsOf(s, d))
       ELSE IF ne # {} THEN
            LET d == SubSeq(t, Min(ne) + 2, Len(t))
            IN MoveOf("remove", IF CandsOf(s, d) = NoCands THEN NoSet ELSE rd(1, Min(ne) - 1), CandsOf(s, d))
       ELSE IF eq # {} THEN
            LET d == Trim(SubSeq(t, Min(eq) + 1, Len(t)))
            IN IF ~IsNumText(d) THEN NoMove ELSE MoveOf("set", rd(1, Min(eq) - 1), NumOf(d))
       ELSE NoMove
\* performing a move on a board
Perform(b, m) ==
    IF m.kind = "set"
    THEN [b EXCEPT !.num = [p \in DOMAIN b.num |-> IF p \in m.fields THEN m.number ELSE @[p]],
                   !.cand = [p \in DOMAIN b.cand |-> IF p \in m.fields THEN {m.number} ELSE @[p]]]
    ELSE [b EXCEPT !.cand = [p \in DOMAIN b.cand |-> IF p \in m.fields THEN @[p] \ m.cands ELSE @[p]]]
=============================================================================
