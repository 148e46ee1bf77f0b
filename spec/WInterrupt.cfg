CONSTANT SIZES <- MCSizes
CONSTANT TEXTS <- MoreTexts
CONSTANT MAXSTACK = 3
CONSTANT MAXBODY = 3
INIT Init
NEXT Next
CONSTRAINT Bound
VIEW View
INVARIANTS NothingLeft LoopGone CanBreak
PROPERTIES PromptKeeps PartOf
CHECK_DEADLOCK FALSE
