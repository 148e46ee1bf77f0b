CONSTANT SIZES <- MCSizes
CONSTANT MAXFIELDS = 3
INIT Init
NEXT Next
INVARIANTS RoundTrip TreesMean Spaced Cut MovesRoundTrip
CHECK_DEADLOCK FALSE
