------------------------------- MODULE MCGame -------------------------------
(***************************************************************************)
(* Games on a small scale: undo and redo walk the history, what was visited *)
(* is never altered, the automatics lose no solution and stop.              *)
(* With -simulate games are printed for the replay.                         *)
(***************************************************************************)
EXTENDS Game, Json
CONSTANTS MAXHIST, SIZE, PUZZLES, MAXOPS
MCSizes == {<<1, 2>>, <<2, 2>>, <<1, 3>>, <<3, 3>>}
OneTwo == <<1, 2>>
OneThree == <<1, 3>>
TwoTwo == <<2, 2>>
VARIABLES vGame, vIn, vOps
gameVars == <<vGame, vIn, vOps>>
\* puzzles with their solution
Given(num, sol) == [num |-> num, sol |-> sol]
Two == {Given(<<1, 0, 0, 0>>, <<1, 2, 2, 1>>)}
Three == {Given(<<1, 0, 0, 0, 3, 0, 0, 0, 0>>, <<1, 2, 3, 2, 3, 1, 3, 1, 2>>)}
Four == {Given(<<1, 0, 0, 0, 0, 0, 3, 0, 0, 4, 0, 0, 0, 0, 0, 2>>, <<1, 3, 2, 4, 4, 2, 3, 1, 2, 4, 1, 3, 3, 1, 4, 2>>)}
RuleSets == {[remove |-> x, fill |-> y] : x \in BOOLEAN, y \in BOOLEAN}
StartBoard(z, c) == InitCand([NewBoard(SIZE[1], SIZE[2]) EXCEPT !.num = z.num], ~c)
StartGame(z, rules, c) ==
    [hist |-> <<IF c THEN Autofill(StartBoard(z, c), rules) ELSE StartBoard(z, c)>>,
     at |-> 1, rules |-> rules, sol |-> z.sol]
Init == \E z \in PUZZLES, rules \in RuleSets, c \in BOOLEAN :
    vGame = StartGame(z, rules, c) /\ vIn = [k |-> "nothing"] /\ vOps = <<>>
Moves == {[kind |-> "set", fields |-> {p}, number |-> v] : p \in CELLS[SIZE], v \in NUMS[SIZE]}
         \cup {[kind |-> "remove", fields |-> {p}, cands |-> {v}] : p \in CELLS[SIZE], v \in NUMS[SIZE]}
Inputs == {[k |-> "move", m |-> m] : m \in Moves} \cup
          {[k |-> x] : x \in {"candidates", "undo", "redo", "query"}}
Next == \E c \in Inputs : vGame' = Play(vGame, c) /\ vIn' = c /\ UNCHANGED vOps
Bound == Len(vGame.hist) <= MAXHIST
View == vGame

Position == vGame.at \in DOMAIN vGame.hist
NoRepeat == \A i \in 1..(Len(vGame.hist) - 1) : vGame.hist[i] # vGame.hist[i + 1]
UndoRedo ==
    /\ vGame.at > 1 => Play(Play(vGame, [k |-> "undo"]), [k |-> "redo"]) = vGame
    /\ vGame.at < Len(vGame.hist) => Play(Play(vGame, [k |-> "redo"]), [k |-> "undo"]) = vGame
\* going all the way back reaches the first board
BackToStart ==
    LET f[i \in 0..Len(vGame.hist)] == IF i = 0 THEN vGame ELSE Play(f[i - 1], [k |-> "undo"])
    IN Current(f[Len(vGame.hist)]) = vGame.hist[1]
\* what has been visited stays as it was
Kept == [][\A i \in 1..vGame.at : i <= Len(vGame'.hist) => vGame'.hist[i] = vGame.hist[i]]_gameVars
Newest == [][vIn'.k \in {"move", "candidates"} /\ vGame' # vGame => vGame'.at = Len(vGame'.hist)]_gameVars
\* the automatics lose nothing if nothing was lost before, and are done
Right(b, sol) == Extends(sol, b.num) /\ Holds(b.cand, sol)
Lossless == [][\A m \in Moves : Right(Perform(Current(vGame), m), vGame.sol) =>
                Right(Autofill(Perform(Current(vGame), m), vGame.rules), vGame.sol)]_gameVars
Settled == LET b == Autofill(Current(vGame), vGame.rules) IN Round(b, vGame.rules) = b
-----------------------------------------------------------------------------
(* Games for the replay on a 9x9 board: fields and numbers are drawn, the   *)
(* harness writes the moves as text.                                        *)
One(S) == {RandomElement(S)}
GenInit == vGame = [hist |-> <<>>] /\ vIn = [k |-> "nothing"] /\ vOps = <<>>
Kinds == <<"right", "right", "right", "right", "wrong", "wrong", "remove", "remove", "undo", "undo", "undo", "undo",
           "redo", "redo", "redo", "hint", "check", "conflicts", "candidates", "unknown", "nothing", "settings">>
GenNext ==
    IF Len(vOps) = MAXOPS
    THEN /\ vIn.k # "done"
         /\ PrintT("HIST|" \o ToJson(vOps))
         /\ vIn' = [k |-> "done"] /\ UNCHANGED <<vGame, vOps>>
    ELSE \E i \in One(1..Len(Kinds)), p \in One(1..81), v \in One(1..9) :
         /\ vOps' = Append(vOps, [k |-> Kinds[i], p |-> p, v |-> v])
         /\ vIn' = [k |-> Kinds[i]] /\ UNCHANGED vGame
=============================================================================
