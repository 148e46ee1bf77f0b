CONSTANT SIZES <- MCSizes
CONSTANTS Q = 3
ANY = TRUE
C = 3
K = 3
BOARDS <- Boards2
INIT Init
NEXT Next
INVARIANTS Live Restored AllBack NothingTwice Complete SoundCover
CHECK_DEADLOCK FALSE
