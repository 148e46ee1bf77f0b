CONSTANT SIZES <- MCSizes
CONSTANT START <- Latin
CONSTANT MAXCUR = 2
CONSTANT SHARED = FALSE
CONSTANT MAXOPS = 0
CONSTANT EMIT = FALSE
INIT Init
NEXT Next
INVARIANTS Complete Once
PROPERTY Alone
CHECK_DEADLOCK FALSE
