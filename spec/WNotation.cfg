CONSTANT SIZES <- MCSizes
CONSTANT MAXFIELDS = 4
INIT Init
NEXT Next
INVARIANTS RoundTrip TreesMean Spaced Cut MovesRoundTrip
CHECK_DEADLOCK FALSE
