------------------------------- MODULE Search -------------------------------
(***************************************************************************)
(* Exhaustive search for the solutions of a puzzle as a state machine.     *)
(* The full states reachable from a conflict free puzzle are exactly its   *)
(* solutions (MCSearch compares them with a definition by enumeration).    *)
(***************************************************************************)
EXTENDS Rules
VARIABLES vSize, vGiven, vGrid
searchVars == <<vSize, vGiven, vGrid>>

SearchInit(size, puzzle) == vSize = size /\ vGiven = puzzle /\ vGrid = puzzle
Hopeless == ~ConflictFree(vSize, vGiven)
Place == /\ ~Hopeless
         /\ ~IsFull(vSize, vGrid)
         /\ \E b \in Branches(vSize, vGrid) : vGrid' = [vGrid EXCEPT ![b[1]] = b[2]]
         /\ UNCHANGED <<vSize, vGiven>>
Found == ~Hopeless /\ IsFull(vSize, vGrid)
FoundIsSolution == Found => IsSolutionOf(vSize, vGrid, vGiven)
=============================================================================
