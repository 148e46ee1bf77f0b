CONSTANT SIZES <- MCSizes
CONSTANTS Q = 3
ANY = FALSE
C = 3
K = 8
BOARDS <- Boards4
INIT InitBoard
NEXT Next
INVARIANTS Live Restored AllBack NothingTwice Solves
CHECK_DEADLOCK FALSE
