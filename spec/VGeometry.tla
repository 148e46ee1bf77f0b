------------------------------ MODULE VGeometry ------------------------------
(* Verdicts on the answers of the coordinate functions (C01).                *)
EXTENDS Grid
Members(seq) == {seq[i] : i \in DOMAIN seq}
\* each member of S once, in any order
Lists(seq, S) == Len(seq) = Cardinality(S) /\ Members(seq) = S

FieldLists(s, x) ==
    LET p == x.p
        sets == <<ROWS[s][ROWOF[s][p]], COLS[s][COLOF[s][p]], BOXES[s][BOXOF[s][p]], PEERS[s][p] \cup {p}>>
        good(a) == Len(a) = 16 /\ \A i \in 1..16 :
            Lists(a[i], IF (i - 1) % 4 < 2 THEN sets[((i - 1) \div 4) + 1]
                        ELSE sets[((i - 1) \div 4) + 1] \ {p})
    IN <<good(x.fn), good(x.me), Members(x.at) = {BOXOF[s][p]}>>
BadFields(r) ==
    LET s == <<r.w, r.h>> IN
    UNION {LET g == FieldLists(s, r.fields[i]) IN
           (IF g[1] THEN {} ELSE {"function lists wrong fields"})
           \cup (IF g[2] THEN {} ELSE {"method lists wrong fields"})
           \cup (IF g[3] THEN {} ELSE {"wrong box index"}) : i \in DOMAIN r.fields}
BadUnits(r) ==
    LET s == <<r.w, r.h>>
        table == <<ROWS[s], COLS[s], BOXES[s], PARTS[s]>>
    IN (IF \A k \in 1..4 : Len(r.units[k]) = NN[s] /\ \A i \in 1..NN[s] : Lists(r.units[k][i], table[k][i - 1])
        THEN {} ELSE {"wrong fields of a unit"})
       \cup (IF \A i \in DOMAIN r.outside : r.outside[i] = "ValueError" THEN {}
             ELSE {"number out of range not rejected"})
=============================================================================
