CONSTANT SIZES <- MCSizes
CONSTANT TEXTS <- FewTexts
CONSTANT MAXSTACK = 2
CONSTANT MAXBODY = 2
INIT Init
NEXT Next
CONSTRAINT Bound
VIEW View
INVARIANTS NothingLeft LoopGone CanBreak
PROPERTIES PromptKeeps PartOf
CHECK_DEADLOCK FALSE
