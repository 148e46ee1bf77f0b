----------------------------- MODULE Techniques -----------------------------
(***************************************************************************)
(* The solving techniques.  num is a grid, cand the candidates.            *)
(* A step is a record [clues, aff, val] of sets: the fields of the pattern, *)
(* the fields which change and the numbers concerned.                      *)
(***************************************************************************)
EXTENDS Rules

\* from the simplest to the hardest
Order == <<"CalculateCandidates", "NakedSingle", "HiddenSingle",
           "NakedPair", "HiddenPair", "NakedTriple", "HiddenTriple",
           "NakedQuad", "HiddenQuad", "NakedQuint", "HiddenQuint",
           "PointingPair", "PointingTriple", "XWing", "Swordfish", "Jellyfish",
           "Bruteforce">>
TechSet == {Order[i] : i \in DOMAIN Order}
Logical == TechSet \ {"Bruteforce"}
Rank == [t \in TechSet |-> CHOOSE i \in DOMAIN Order : Order[i] = t]
Weight == [t \in TechSet |->
    CASE t = "CalculateCandidates" -> 0
      [] t \in {"NakedSingle", "HiddenSingle"} -> 1
      [] t \in {"NakedPair", "HiddenPair", "NakedTriple", "HiddenTriple"} -> 2
      [] t \in {"NakedQuad", "HiddenQuad", "NakedQuint", "HiddenQuint"} -> 3
      [] t \in {"PointingPair", "PointingTriple"} -> 4
      [] t = "XWing" -> 5 [] t = "Swordfish" -> 6 [] t = "Jellyfish" -> 7
      [] t = "Bruteforce" -> 10]
NakedTuples == {"NakedPair", "NakedTriple", "NakedQuad", "NakedQuint"}
HiddenTuples == {"HiddenPair", "HiddenTriple", "HiddenQuad", "HiddenQuint"}
Pointings == {"PointingPair", "PointingTriple"}
Fishes == {"XWing", "Swordfish", "Jellyfish"}
Writers == {"NakedSingle", "HiddenSingle", "Bruteforce"}
Degree == [t \in NakedTuples \cup HiddenTuples \cup Pointings \cup Fishes |->
    CASE t \in {"NakedPair", "HiddenPair", "PointingPair", "XWing"} -> 2
      [] t \in {"NakedTriple", "HiddenTriple", "PointingTriple", "Swordfish"} -> 3
      [] t \in {"NakedQuad", "HiddenQuad", "Jellyfish"} -> 4
      [] OTHER -> 5]

Combos(n, S) == IF Cardinality(S) < n THEN {} ELSE kSubset(n, S)
Step(c, a, v) == [clues |-> c, aff |-> a, val |-> v]
Places(cand, u, v) == {p \in u : v \in cand[p]}
\* units with something left to do
OpenUnits(s, num) == {u \in UNITS[s] : \E p \in u : num[p] = 0}
UnitsOf(s, p) == {ROWS[s][ROWOF[s][p]], COLS[s][COLOF[s][p]], BOXES[s][BOXOF[s][p]]}

-----------------------------------------------------------------------------
(* All instances of each pattern. *)
CalcInstances(s, num, cand) ==
    {Step({p}, {p}, Calc(s, num, p)) : p \in {q \in CELLS[s] : cand[q] = {}}}

NakedSingles(s, num, cand) ==
    {Step({p}, {p}, cand[p]) :
        p \in {q \in CELLS[s] : num[q] = 0 /\ Cardinality(cand[q]) = 1}}

IsHidden(s, cand, p, v) ==
    \E u \in UnitsOf(s, p) : \A q \in u \ {p} : v \notin cand[q]
HiddenSingles(s, num, cand) ==
    UNION {{Step({p}, {p}, {v}) : v \in {x \in cand[p] : IsHidden(s, cand, p, x)}} :
        p \in {q \in CELLS[s] : num[q] = 0}}

NakedIn(cand, u, n) ==
    LET few == {p \in u : Cardinality(cand[p]) \in 2..n}
        sets == {f \in Combos(n, few) : Cardinality(UNION {cand[p] : p \in f}) <= n}
        steps == {LET v == UNION {cand[p] : p \in f} IN
                  Step(f, {p \in u \ f : cand[p] \cap v # {}}, v) : f \in sets}
    IN {x \in steps : x.aff # {}}
Nakeds(s, num, cand, n) == UNION {NakedIn(cand, u, n) : u \in OpenUnits(s, num)}

HiddenIn(s, cand, u, n) ==
    LET at == TLCEval([v \in NUMS[s] |-> Places(cand, u, v)])
        rare == {v \in NUMS[s] : Cardinality(at[v]) \in 2..n}
        sets == {x \in Combos(n, rare) : Cardinality(UNION {at[v] : v \in x}) <= n}
        steps == {Step(u, {p \in UNION {at[v] : v \in x} : ~(cand[p] \subseteq x)}, x) : x \in sets}
    IN {x \in steps : x.aff # {}}
Hiddens(s, num, cand, n) == UNION {HiddenIn(s, cand, u, n) : u \in OpenUnits(s, num)}

\* the candidate v is confined to the intersection of the units from and to
Confined(cand, from, to, v, n) ==
    LET p == Places(cand, from, v) IN
    IF Cardinality(p) # n \/ ~(p \subseteq to) THEN {}
    ELSE LET a == Places(cand, to, v) \ p IN IF a = {} THEN {} ELSE {Step(p, a, {v})}
Pointers(s, cand, n) ==
    UNION {UNION {Confined(cand, x[1], x[2], v, n) : v \in NUMS[s]} :
        x \in UNION {{<<b, q>>, <<q, b>>} : b \in BOXSET[s], q \in LINES[s]}}

FishOf(s, cand, base, cover, v, n) ==
    LET at == TLCEval([i \in 0..(NN[s] - 1) |-> Places(cand, base[i], v)])
        fit == {i \in 0..(NN[s] - 1) : Cardinality(at[i]) \in 2..n}
        step(idx) ==
            LET f == UNION {at[i] : i \in idx}
                c == {k \in 0..(NN[s] - 1) : f \cap cover[k] # {}}
            IN IF Cardinality(c) > n \/ \E k \in c : Cardinality(f \cap cover[k]) < 2 THEN {}
               ELSE LET a == UNION {Places(cand, cover[k], v) : k \in c} \ f
                    IN IF a = {} THEN {} ELSE {Step(f, a, {v})}
    IN IF Cardinality(fit) < n THEN {} ELSE UNION {step(idx) : idx \in Combos(n, fit)}
Fish(s, cand, n) ==
    UNION {FishOf(s, cand, ROWS[s], COLS[s], v, n) \cup FishOf(s, cand, COLS[s], ROWS[s], v, n) :
        v \in NUMS[s]}

Instances(t, s, num, cand) ==
    CASE t = "CalculateCandidates" -> CalcInstances(s, num, cand)
      [] t = "NakedSingle" -> NakedSingles(s, num, cand)
      [] t = "HiddenSingle" -> HiddenSingles(s, num, cand)
      [] t \in NakedTuples -> Nakeds(s, num, cand, Degree[t])
      [] t \in HiddenTuples -> Hiddens(s, num, cand, Degree[t])
      [] t \in Pointings -> Pointers(s, cand, Degree[t])
      [] t \in Fishes -> Fish(s, cand, Degree[t])
      [] OTHER -> {}

\* Several variants of one pattern may be reported only once: naked tuples of
\* the same fields (seen in two units), hidden singles of the same field.
Key(t, x) == IF t \in NakedTuples \cup {"HiddenSingle"} THEN x.clues ELSE x

-----------------------------------------------------------------------------
(* Applying a step. *)
ApplyNum(t, x, num) ==
    IF t \in Writers
    THEN [num EXCEPT ![CHOOSE p \in x.aff : TRUE] = CHOOSE v \in x.val : TRUE]
    ELSE num
ApplyCand(t, x, s, cand) ==
    CASE t = "CalculateCandidates" -> [p \in DOMAIN cand |-> IF p \in x.aff THEN x.val ELSE cand[p]]
      [] t \in Writers ->
            LET f == CHOOSE p \in x.aff : TRUE IN
            [p \in DOMAIN cand |-> IF p = f THEN x.val
                                   ELSE IF p \in PEERS[s][f] THEN cand[p] \ x.val ELSE cand[p]]
      [] t \in HiddenTuples -> [p \in DOMAIN cand |-> IF p \in x.aff THEN cand[p] \cap x.val ELSE cand[p]]
      [] OTHER -> [p \in DOMAIN cand |-> IF p \in x.aff THEN cand[p] \ x.val ELSE cand[p]]

-----------------------------------------------------------------------------
(* Steps which are justified by the state they are applied in.  While a    *)
(* technique goes on searching, the pattern may have shrunk since it was    *)
(* first seen (fewer candidates), so this is weaker than being an instance; *)
(* MCTechniques checks that such steps lose no solution either.             *)
SingleShape(s, num, x) ==
    Cardinality(x.aff) = 1 /\ x.clues = x.aff /\ Cardinality(x.val) = 1
    /\ x.aff \subseteq CELLS[s] /\ \A p \in x.aff : num[p] = 0
Justified(t, s, num, cand, x) ==
    CASE t \in {"CalculateCandidates", "NakedSingle", "HiddenSingle"} \cup Pointings ->
            x \in Instances(t, s, num, cand)
      [] t \in NakedTuples ->
            /\ Cardinality(x.clues) = Degree[t]
            /\ x.clues \subseteq CELLS[s]
            /\ x.val = UNION {cand[p] : p \in x.clues}
            /\ Cardinality(x.val) <= Degree[t]
            /\ x.aff # {}
            /\ \E u \in UNITS[s] : x.clues \subseteq u
                  /\ x.aff = {p \in u \ x.clues : cand[p] \cap x.val # {}}
      [] t \in HiddenTuples ->
            /\ x.clues \in UNITS[s]
            /\ Cardinality(x.val) = Degree[t]
            /\ x.val \subseteq NUMS[s]
            /\ x.aff # {}
            /\ x.aff \subseteq x.clues
            /\ LET at == UNION {Places(cand, x.clues, v) : v \in x.val} IN
               /\ Cardinality(at \cup x.aff) <= Degree[t]
               /\ \A p \in at \cup x.aff : (p \in x.aff) <=> ~(cand[p] \subseteq x.val)
      [] t \in Fishes ->
            /\ Cardinality(x.val) = 1 /\ x.val \subseteq NUMS[s]
            /\ x.clues \subseteq CELLS[s]
            /\ x.aff # {}
            /\ \E d \in {<<ROWS[s], COLS[s]>>, <<COLS[s], ROWS[s]>>} :
                 LET v == CHOOSE y \in x.val : TRUE
                     base == {i \in 0..(NN[s]-1) : d[1][i] \cap x.clues # {}}
                     cover == {k \in 0..(NN[s]-1) : d[2][k] \cap x.clues # {}}
                 IN /\ Cardinality(base) = Degree[t]
                    /\ Cardinality(cover) <= Degree[t]
                    /\ \A k \in cover : Cardinality(d[2][k] \cap x.clues) >= 2
                    /\ \A i \in base : Places(cand, d[1][i], v) \subseteq x.clues
                    /\ x.aff = UNION {Places(cand, d[2][k], v) : k \in cover} \ x.clues
      [] t = "Bruteforce" -> SingleShape(s, num, x) /\ x.val \subseteq NUMS[s]
      [] OTHER -> FALSE
=============================================================================
