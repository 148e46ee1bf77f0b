CONSTANT SIZES <- MCSizes
CONSTANT MAXOPS = 1
CONSTANT VALUES = 1
CONSTANT QUESTIONS = {"count", "solutions", "beside", "singles"}
CONSTANT FORGET = "shape"
CONSTANT EMIT = FALSE
INIT Init
NEXT Next
INVARIANTS Unshown MemoryTrue
PROPERTY AsksKeep
CONSTRAINT Small
CHECK_DEADLOCK FALSE
