CONSTANT SIZES <- MCSizes
CONSTANT WIDE = FALSE
INIT Init
NEXT Next
INVARIANTS StaysUnique Enough Pattern Minimal FullWhenAsked Orbits FourApart
CHECK_DEADLOCK FALSE
