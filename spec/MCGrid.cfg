CONSTANT SIZES <- MCSizes
CONSTANT MAXW = 4
CONSTANT MAXH = 4
INIT Init
NEXT Next
INVARIANT Geometry
CHECK_DEADLOCK FALSE
