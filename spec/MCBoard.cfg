CONSTANT SIZES <- MCSizes
CONSTANT SHAPES <- TwoShapes
CONSTANT MAXBOARDS = 2
CONSTANT MAXOPS = 2
CONSTANT VALUES = 1
CONSTANT EMIT = FALSE
CONSTANT COPYING = TRUE
INIT Init
NEXT Next
CONSTRAINT Bound
INVARIANTS ReadsBack CountsAgree
PROPERTY OthersKept
VIEW View
CHECK_DEADLOCK FALSE
