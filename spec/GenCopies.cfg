CONSTANT SIZES <- MCSizes
CONSTANT SHAPES <- MoreShapes
CONSTANT MAXBOARDS = 3
CONSTANT MAXOPS = 30
CONSTANT VALUES = 2
CONSTANT EMIT = TRUE
CONSTANT COPYING = TRUE
INIT Init
NEXT GenNext
CHECK_DEADLOCK FALSE
