CONSTANT SIZES <- MCSizes
CONSTANT START <- Tiny
CONSTANT CMDS <- FewCmds
CONSTANT MAXSTACK = 1
CONSTANT MAXBODY = 2
CONSTANT MAXOPS = 0
CONSTANT EMIT = FALSE
INIT Init
NEXT Next
CONSTRAINT Bound
VIEW View
INVARIANTS PushPop Unrolled FirstErrorStops
PROPERTIES ErrorsKeep ReadersKeep Defining ExitWorks EndEnds Independent
CHECK_DEADLOCK FALSE
