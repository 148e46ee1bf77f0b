------------------------------ MODULE MCHistory ------------------------------
(***************************************************************************)
(* A library which remembers answers, and a program asking it.  vMemory     *)
(* holds what is remembered, by a key of the question and the board;        *)
(* FORGET says what the key leaves out.  With the whole board as the key    *)
(* every answer is that of a program which asked nothing before; leave out  *)
(* the shape, the candidates or the board itself and TLC shows a history    *)
(* which tells (FHistory-*.cfg, thorough tier).         *)
(* With -simulate histories for the replay are printed.                     *)
(***************************************************************************)
EXTENDS History, Json
CONSTANTS MAXOPS, VALUES, QUESTIONS, FORGET, EMIT
MCSizes == {<<1, 2>>, <<2, 1>>}
VARIABLES vHeap, vMemory, vAnswer, vHist
histVars == <<vHeap, vMemory, vAnswer, vHist>>
Handles == DOMAIN vHeap

\* some questions, with answers which need the numbers, the shape, the
\* candidates
Answer(q, b) ==
    CASE q = "count" -> Cardinality(Filled(Size(b), b.num))
      [] q = "conflicts" -> Cardinality(Conflicts(Size(b), b.num))
      [] q = "solutions" -> Cardinality(Solutions(Size(b), b.num))
      [] q = "free" -> FoldSeq(LAMBDA p, acc : acc + Cardinality(Calc(Size(b), b.num, p)), 0, EmptySeq(b))
      [] q = "beside" -> BOXES[Size(b)][0] = ROWS[Size(b)][0]
      [] q = "singles" -> Cardinality({p \in DOMAIN b.num : b.num[p] = 0 /\ Cardinality(b.cand[p]) = 1})
KeyOf(q, i) ==
    LET b == vHeap[i] IN
    CASE FORGET = "nothing" -> <<q, b>>
      [] FORGET = "shape" -> <<q, b.num, b.cand>>
      [] FORGET = "candidates" -> <<q, Size(b), b.num>>
      [] FORGET = "content" -> <<q, i>>
Init == vHeap = <<>> /\ vMemory = <<>> /\ vAnswer = <<>> /\ vHist = <<>>
Note(e) == vHist' = IF EMIT THEN Append(vHist, e) ELSE vHist
Change(e) == /\ vHeap' = HistoryNext(vHeap, e) /\ vAnswer' = <<>>
             /\ UNCHANGED vMemory /\ Note(e)
Ask(q, i) ==
    LET k == KeyOf(q, i)
        a == IF k \in DOMAIN vMemory THEN vMemory[k] ELSE Answer(q, vHeap[i])
    IN /\ vMemory' = (k :> a) @@ vMemory
       /\ vAnswer' = <<q, i, a>>
       /\ Note([op |-> "ask", q |-> q, b |-> i])
       /\ UNCHANGED vHeap
Loads == {[op |-> "load", board |-> [w |-> z[1], h |-> z[2], num |-> m,
              cand |-> [p \in 1..4 |-> IF c THEN Calc(z, m, p) ELSE {}]]] :
          z \in SIZES, m \in {<<0, 0, 0, 0>>, <<1, 0, 0, 0>>, <<1, 0, 1, 0>>}, c \in BOOLEAN}
Changes == UNION {
    {[op |-> "set", b |-> i, p |-> x, v |-> y] : x \in {4}, y \in 0..VALUES} \cup
    {[op |-> "setcand", b |-> i, p |-> 2, s |-> y] : y \in {<<1>>}} : i \in Handles}
Next == \/ Len(vHeap) < 2 /\ \E e \in Loads : Change(e)
        \/ \E e \in Changes : Change(e)
        \/ \E i \in Handles, q \in QUESTIONS : Ask(q, i)
Small == Cardinality(DOMAIN vMemory) <= MAXOPS

\* the answer just given is the one a program gets which asked nothing else
Unshown == vAnswer # <<>> => vAnswer[3] = Answer(vAnswer[1], vHeap[vAnswer[2]])
\* whatever is remembered is true (of the board in the key)
MemoryTrue == FORGET = "nothing" =>
    \A k \in DOMAIN vMemory : vMemory[k] = Answer(k[1], k[2])
\* a question changes no board
AsksKeep == [][vAnswer' # <<>> => vHeap' = vHeap]_histVars
\* without its questions a history leads to the same boards (with EMIT)
PurgedSame == EMIT => HeapAfter(Purged(vHist)) = vHeap

-----------------------------------------------------------------------------
(* Histories for the replay (TLC -simulate).  Fields, numbers and arguments *)
(* are drawn by the harness from the numbers x and y; boards are those of a *)
(* pool, similar to each other.  Here only the handles matter.              *)
AllQuestions == {"text", "view", "fields", "geometry", "functions", "calc", "conflicts", "solved", "unique",
                 "dlx", "bruteforce", "solve", "rate", "score", "hints", "find", "first", "compare",
                 "copy", "decode", "coordinates", "generate", "shell", "moves", "techniques"}
One(S) == {RandomElement(S)}
Count == Len(vHeap)
GenAdd(e) == vHist' = Append(vHist, e) /\ vHeap' = Append(vHeap, Count + 1) /\ UNCHANGED <<vMemory, vAnswer>>
GenStay(e) == vHist' = Append(vHist, e) /\ UNCHANGED <<vHeap, vMemory, vAnswer>>
\* most questions of a history are of three kinds, remembered in vMemory
GenNext ==
    IF Len(vHist) = MAXOPS
    THEN vAnswer = <<>> /\ PrintT("HIST|" \o ToJson(vHist)) /\ vAnswer' = <<"done">> /\ UNCHANGED <<vHeap, vMemory, vHist>>
    ELSE IF Count = 0 THEN \E k \in One(1..6), a \in One(QUESTIONS), b \in One(QUESTIONS), c \in One(QUESTIONS) :
            /\ vHist' = <<[op |-> "load", k |-> k]>> /\ vHeap' = <<1>> /\ vMemory' = <<a, b, c>> /\ UNCHANGED vAnswer
    ELSE \E roll \in One(1..20), i \in One(1..Count), x \in One(0..9999), y \in One(0..9999), c \in One(BOOLEAN),
            q \in One(IF Len(vHist) % 3 = 0 THEN QUESTIONS ELSE {vMemory[1], vMemory[2], vMemory[3]}), k \in One(1..6) :
         IF roll <= 3 /\ Count < 5 THEN GenAdd([op |-> "load", k |-> k])
         ELSE IF roll = 4 /\ Count < 5 THEN GenAdd([op |-> "copy", b |-> i, c |-> c])
         ELSE IF roll <= 6 THEN GenStay([op |-> "set", b |-> i, x |-> x, y |-> y])
         ELSE IF roll = 7 THEN GenStay([op |-> "init", b |-> i, c |-> c])
         ELSE IF roll = 8 THEN GenStay([op |-> RandomElement({"setcand", "remcand"}), b |-> i, x |-> x, y |-> y])
         ELSE GenStay([op |-> "ask", b |-> i, q |-> q, x |-> x])
=============================================================================
