CONSTANT SIZES <- MCSizes
CONSTANT SIZE <- OneThree
CONSTANT PUZZLES <- Three
CONSTANT MAXHIST = 3
CONSTANT MAXOPS = 0
INIT Init
NEXT Next
CONSTRAINT Bound
VIEW View
INVARIANTS Position NoRepeat UndoRedo BackToStart Settled
PROPERTIES Kept Newest Lossless
CHECK_DEADLOCK FALSE
