------------------------------- MODULE MCBoard -------------------------------
(***************************************************************************)
(* The heap of boards on a small scale: last write wins, no operation      *)
(* touches another field or board, copies are independent.  With            *)
(* -simulate the histories are printed for the replay in the real code.     *)
(***************************************************************************)
EXTENDS Board, Json
CONSTANTS MAXBOARDS, MAXOPS, VALUES, SHAPES, EMIT, COPYING
MCSizes == {<<1, 2>>, <<2, 1>>, <<1, 1>>, <<2, 2>>, <<1, 3>>}
TwoShapes == {<<1, 2>>, <<1, 1>>}
MoreShapes == {<<1, 2>>, <<2, 1>>, <<2, 2>>, <<1, 3>>}
VARIABLES vHeap, vLast, vHist, vShadow
boardVars == <<vHeap, vLast, vHist, vShadow>>
Handles == DOMAIN vHeap
Fields(i) == DOMAIN vHeap[i].num
Vals == 0..VALUES
Cands == {<<>>, <<1>>, <<2>>, <<1, 2>>}

Sides(i) == vHeap[i].w * vHeap[i].h
Accesses == {"get", "set", "getcand", "setcand", "remcand"}

News == {[op |-> "new", w |-> z[1], h |-> z[2]] : z \in SHAPES}
Copies == {[op |-> "copy", b |-> i, c |-> k] : i \in Handles, k \in BOOLEAN}
Writes == UNION {
    {[op |-> "set", b |-> i, p |-> q, v |-> x] : q \in Fields(i), x \in Vals} \cup
    {[op |-> "setcand", b |-> i, p |-> q, s |-> x] : q \in Fields(i), x \in Cands} \cup
    {[op |-> "remcand", b |-> i, p |-> q, s |-> x] : q \in Fields(i), x \in Cands} \cup
    {[op |-> "init", b |-> i, c |-> k] : k \in BOOLEAN} \cup
    UNION {{[op |-> "movecand", b |-> i, p |-> q, b2 |-> j, p2 |-> q2] :
              q \in Fields(i), q2 \in Fields(j)} : j \in Handles} : i \in Handles}
ReadOps == UNION {
    {[op |-> o, b |-> i] : o \in {"empty", "filled", "iter", "count", "len", "shape"}} \cup
    {[op |-> o, b |-> i, p |-> q] : o \in {"get", "getcand"}, q \in Fields(i)} \cup
    {[op |-> o, b |-> i, b2 |-> j] : o \in {"eq", "ne"}, j \in Handles} \cup
    {[op |-> "eqmap", b |-> i, like |-> j, off |-> q, lack |-> d, neg |-> FALSE] :
         q \in {0} \cup Fields(i), d \in BOOLEAN, j \in {k \in Handles : Size(vHeap[k]) = Size(vHeap[i])}} \cup
    {[op |-> "eqodd", b |-> i, what |-> "None", neg |-> d] : d \in BOOLEAN} \cup
    {[op |-> "outside", b |-> i, r |-> x, c |-> y, how |-> k] :
         k \in {"get", "remcand"}, x \in {0, Sides(i)}, y \in {Sides(i), Sides(i) + 1}} \cup
    {[op |-> "diff", b |-> i, b2 |-> j] : j \in {k \in Handles : Size(vHeap[k]) = Size(vHeap[i])}} \cup
    {[op |-> "equals", b |-> i, b2 |-> j, c |-> d] : d \in BOOLEAN,
         j \in {k \in Handles : Size(vHeap[k]) = Size(vHeap[i])}} : i \in Handles}

\* vShadow is an independent account of what was written: the log of writes
\* per board, from which every field can be read back.
Content(log, kind, p) ==
    LET f[k \in 0..Len(log)] ==
        IF k = 0 THEN [n |-> 0, c |-> {}]
        ELSE LET x == log[k] IN
             CASE x.t = "n" /\ x.p = p -> [f[k-1] EXCEPT !.n = x.v]
               [] x.t = "c" /\ x.p = p -> [f[k-1] EXCEPT !.c = x.v]
               [] x.t = "r" /\ x.p = p -> [f[k-1] EXCEPT !.c = @ \ x.v]
               [] OTHER -> f[k-1]
    IN f[Len(log)][kind]
LogOf(heap, e) ==
    CASE e.op = "set" -> <<[t |-> "n", p |-> e.p, v |-> e.v]>>
      [] e.op = "setcand" -> <<[t |-> "c", p |-> e.p, v |-> Set(e.s)]>>
      [] e.op = "remcand" -> <<[t |-> "r", p |-> e.p, v |-> Set(e.s)]>>
      [] e.op = "movecand" -> <<[t |-> "c", p |-> e.p2, v |-> heap[e.b].cand[e.p]]>>
      [] OTHER -> <<>>
Target(e) == IF e.op = "movecand" THEN e.b2 ELSE e.b

Do(e) ==
    /\ vHeap' = OpNext(vHeap, e)
    /\ vLast' = e
    /\ vHist' = IF EMIT THEN Append(vHist, e) ELSE vHist
    /\ vShadow' =
        CASE e.op = "new" -> Append(vShadow, <<>>)
          [] e.op = "copy" -> Append(vShadow, IF e.c THEN vShadow[e.b]
                                ELSE SelectSeq(vShadow[e.b], LAMBDA x : x.t = "n"))
          [] e.op \in Reads -> vShadow
          [] e.op = "init" -> [vShadow EXCEPT ![e.b] = @ \o
                SetToSeq({[t |-> "c", p |-> q, v |-> Calc(Size(vHeap[e.b]), vHeap[e.b].num, q)] :
                    q \in {x \in Fields(e.b) : ~e.c \/ vHeap[e.b].num[x] # 0}})]
          [] OTHER -> [vShadow EXCEPT ![Target(e)] = @ \o LogOf(vHeap, e)]

Create == /\ Len(vHeap) < MAXBOARDS /\ \E e \in News : Do(e)
Copying == /\ Len(vHeap) < MAXBOARDS /\ \E e \in Copies : Do(e)
Write == \E e \in Writes : Do(e)
Read == \E e \in ReadOps : Do(e)

Init == vHeap = <<>> /\ vLast = [op |-> "none"] /\ vHist = <<>> /\ vShadow = <<>>
Next == Create \/ Copying \/ Write \/ Read
Bound == FoldSeq(LAMBDA x, acc : acc + Len(x), 0, vShadow) <= MAXOPS

ReadsBack == \A i \in Handles : \A q \in Fields(i) :
    /\ vHeap[i].num[q] = Content(vShadow[i], "n", q)
    /\ vHeap[i].cand[q] = Content(vShadow[i], "c", q)
CountsAgree == \A i \in Handles :
    /\ OpResult(vHeap, [op |-> "count", b |-> i])[1] = Len(FilledSeq(vHeap[i]))
    /\ Len(FilledSeq(vHeap[i])) + Len(EmptySeq(vHeap[i])) = Len(vHeap[i].num)
OthersKept == [][\A i \in Handles :
    (vLast'.op \in Reads \cup {"new", "copy"} \/ Target(vLast') # i) => vHeap'[i] = vHeap[i]]_boardVars

-----------------------------------------------------------------------------
(* Random histories for the replay in the real code (TLC -simulate): each   *)
(* step is drawn from one class of operations, a complete history is        *)
(* printed once.                                                            *)
Draw(S) == S # {} /\ \E e \in {RandomElement(S)} : Do(e)
PlainReads == Reads \ {"eq", "ne", "eqmap", "eqodd", "diff", "equals"}
Oddities == {"None", "int", "text", "list", "tuple", "dict", "object", "rows"}
One(S) == {RandomElement(S)}
WriteOne == \E i \in One(Handles), j \in One(Handles), x \in One(Vals), c \in One(Cands),
               k \in One({"set", "setcand", "remcand", "movecand"}) :
            \E q \in One(Fields(i)), q2 \in One(Fields(j)) :
    Do(CASE k = "set" -> [op |-> k, b |-> i, p |-> q, v |-> x]
         [] k = "movecand" -> [op |-> k, b |-> i, p |-> q, b2 |-> j, p2 |-> q2]
         [] OTHER -> [op |-> k, b |-> i, p |-> q, s |-> c])
ReadOne == \E i \in One(Handles), o \in One(IF COPYING THEN Reads ELSE PlainReads), d \in One(BOOLEAN) :
           \E q \in One(Fields(i)), m \in One({k \in Handles : Size(vHeap[k]) = Size(vHeap[i])}),
              any \in One(Handles) :
    Do(CASE o \in {"get", "getcand"} -> [op |-> o, b |-> i, p |-> q]
         [] o \in {"eq", "ne"} -> [op |-> o, b |-> i, b2 |-> any]
         [] o = "eqmap" -> [op |-> o, b |-> i, like |-> m, off |-> RandomElement({0, q}),
                            lack |-> RandomElement(BOOLEAN), neg |-> d]
         [] o = "eqodd" -> [op |-> o, b |-> i, what |-> RandomElement(Oddities), neg |-> d]
         [] o = "outside" -> LET x == RandomElement(0..(Sides(i) + 2)) IN
                [op |-> o, b |-> i, r |-> x,
                 c |-> RandomElement(IF x >= Sides(i) THEN 0..(Sides(i) + 2)
                                     ELSE Sides(i)..(Sides(i) + 2)),
                 how |-> RandomElement(Accesses)]
         [] o = "diff" -> [op |-> o, b |-> i, b2 |-> m]
         [] o = "equals" -> [op |-> o, b |-> i, b2 |-> m, c |-> d]
         [] OTHER -> [op |-> o, b |-> i])
GenNext ==
    IF Len(vHist) = MAXOPS
    THEN /\ vLast.op # "done"
         /\ PrintT("HIST|" \o ToJson(vHist))
         /\ vLast' = [op |-> "done"] /\ UNCHANGED <<vHeap, vHist, vShadow>>
    ELSE \E roll \in One(1..10) :
         IF Handles = {} THEN Draw(News)
         ELSE IF roll <= 2 /\ Len(vHeap) < MAXBOARDS
              THEN Draw(IF roll = 1 \/ ~COPYING THEN News ELSE Copies)
         ELSE IF roll <= 6 THEN WriteOne ELSE ReadOne
View == <<vHeap, vShadow>>
=============================================================================
