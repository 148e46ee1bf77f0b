CONSTANT SIZES <- GenSizes
CONSTANT START <- None
CONSTANT MAXCUR = 5
CONSTANT SHARED = FALSE
CONSTANT MAXOPS = 45
CONSTANT EMIT = TRUE
INIT Init
NEXT GenNext
CHECK_DEADLOCK FALSE
