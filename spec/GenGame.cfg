CONSTANT SIZES <- MCSizes
CONSTANT SIZE <- OneTwo
CONSTANT PUZZLES = {}
CONSTANT MAXHIST = 0
CONSTANT MAXOPS = 30
INIT GenInit
NEXT GenNext
CHECK_DEADLOCK FALSE
