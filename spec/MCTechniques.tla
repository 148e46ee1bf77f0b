---------------------------- MODULE MCTechniques ----------------------------
(***************************************************************************)
(* Every technique is sound: in any state, no justified step loses a       *)
(* solution still contained in the candidates.  States are reached by      *)
(* applying techniques in any order, and by removing any candidates not    *)
(* needed by one solution (so patterns of all kinds come up).              *)
(***************************************************************************)
EXTENDS Techniques
CONSTANTS MASKS, NOISE, START
MCSizes == {<<2, 2>>}
S2 == <<2, 2>>
Perms == {f \in [1..4 -> 1..4] : \A i, j \in 1..4 : i # j => f[i] # f[j]}
Bands == TLCEval({a \o b : a, b \in TLCEval({<<f[1], f[2], f[3], f[4]>> : f \in Perms})})
GoodBands == TLCEval({t \in Bands : Cardinality({t[1], t[2], t[5], t[6]}) = 4
                                   /\ Cardinality({t[3], t[4], t[7], t[8]}) = 4})
AllGrids == TLCEval({g \in {a \o b : a, b \in GoodBands} : IsGrid(S2, g)})
Base == <<1,2,3,4, 3,4,1,2, 2,1,4,3, 4,3,2,1>>
Base2 == <<1,2,3,4, 3,4,2,1, 2,1,4,3, 4,3,1,2>>

VARIABLES vNum, vCand, vNoise
techVars == <<vNum, vCand, vNoise>>
Masked(g, m) == [p \in 1..16 |-> IF p \in m THEN g[p] ELSE 0]
\* stale: the candidates were calculated before any number was set
Stale(num) == [p \in 1..16 |-> IF num[p] # 0 THEN {num[p]} ELSE NUMS[S2]]
Init == \E g \in {Base, Base2} : \E m \in MASKS :
    /\ vNum = Masked(g, m) /\ vNoise = NOISE
    /\ vCand = IF START = "stale" THEN Stale(vNum) ELSE CalcAll(S2, vNum)
Apply == \E t \in Logical : \E x \in Instances(t, S2, vNum, vCand) :
    /\ vNum' = ApplyNum(t, x, vNum)
    /\ vCand' = ApplyCand(t, x, S2, vCand)
    /\ UNCHANGED vNoise
\* an elimination from elsewhere, keeping Base or Base2
Eliminate == /\ vNoise > 0
             /\ \E p \in 1..16 : \E v \in vCand[p] :
                  /\ vNum[p] = 0
                  /\ \E g \in {Base, Base2} : Holds(vCand, g) /\ g[p] # v
                  /\ vCand' = [vCand EXCEPT ![p] = @ \ {v}]
             /\ vNoise' = vNoise - 1 /\ UNCHANGED vNum
Next == Apply \/ Eliminate

Kept == {g \in AllGrids : Holds(vCand, g)}
Safe(t, x) == LET c == ApplyCand(t, x, S2, vCand) IN \A g \in Kept : Holds(c, g)
Sound == \A t \in Logical : \A x \in Instances(t, S2, vNum, vCand) : Safe(t, x)
InstancesJustified == \A t \in Logical : \A x \in Instances(t, S2, vNum, vCand) :
    Justified(t, S2, vNum, vCand, x)
\* an elimination step really changes every affected field
StepsChange == \A t \in Logical \ {"CalculateCandidates", "NakedSingle", "HiddenSingle"} :
    \A x \in Instances(t, S2, vNum, vCand) :
        \A p \in x.aff : ApplyCand(t, x, S2, vCand)[p] # vCand[p]
\* Every instance stays justified, or disappears, when another step of the
\* same technique was applied first (what happens while a search goes on).
Relaxed(t, x, c) ==
    CASE t \in NakedTuples -> {Step(x.clues, {p \in u \ x.clues : c[p] \cap UNION {c[q] : q \in x.clues} # {}},
                                    UNION {c[q] : q \in x.clues}) : u \in {w \in UNITS[S2] : x.clues \subseteq w}}
      [] t \in HiddenTuples -> {Step(x.clues, {p \in UNION {Places(vCand, x.clues, v) : v \in x.val} : ~(c[p] \subseteq x.val)}, x.val)}
      [] t \in Fishes -> {Step(x.clues, {p \in x.aff : x.val \subseteq c[p]}, x.val)}
      [] OTHER -> {}
StaleSafe == \A t \in NakedTuples \cup HiddenTuples \cup Fishes :
    LET all == Instances(t, S2, vNum, vCand) IN
    \A x \in all : LET c == ApplyCand(t, x, S2, vCand)
                       left == {g \in AllGrids : Holds(c, g)} IN
        \A y \in all \ {x} : \A z \in Relaxed(t, y, c) :
            Justified(t, S2, vNum, c, z) =>
                \A g \in left : Holds(ApplyCand(t, z, S2, c), g)
=============================================================================
