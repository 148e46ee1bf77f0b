CONSTANT SIZES <- MCSizes
CONSTANTS Q = 3
ANY = TRUE
C = 3
K = 3
BOARDS <- Boards2
INIT InitBoard
NEXT Next
INVARIANTS Live Restored AllBack NothingTwice Solves
CHECK_DEADLOCK FALSE
