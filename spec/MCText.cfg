CONSTANT SIZES <- MCSizes
CONSTANT DEEP = FALSE
INIT Init
NEXT Next
INVARIANTS RoundTrip Layout Shapes ViewWidths
CHECK_DEADLOCK FALSE
