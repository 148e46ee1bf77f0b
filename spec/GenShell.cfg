CONSTANT SIZES <- GenSizes
CONSTANT START <- Normal
CONSTANT CMDS = {}
CONSTANT MAXSTACK = 3
CONSTANT MAXBODY = 4
CONSTANT MAXOPS = 40
CONSTANT EMIT = TRUE
INIT Init
NEXT GenNext
CHECK_DEADLOCK FALSE
