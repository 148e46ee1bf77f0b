CONSTANT SIZES <- MCSizes
CONSTANT WIDE = TRUE
INIT Init
NEXT Next
INVARIANTS StaysUnique Enough Pattern Minimal FullWhenAsked Orbits FourApart
CHECK_DEADLOCK FALSE
