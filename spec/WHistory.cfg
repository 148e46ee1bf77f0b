CONSTANT SIZES <- MCSizes
CONSTANT MAXOPS = 2
CONSTANT VALUES = 1
CONSTANT QUESTIONS = {"free", "conflicts", "beside", "singles"}
CONSTANT FORGET = "nothing"
CONSTANT EMIT = FALSE
INIT Init
NEXT Next
INVARIANTS Unshown MemoryTrue
PROPERTY AsksKeep
CONSTRAINT Small
CHECK_DEADLOCK FALSE
