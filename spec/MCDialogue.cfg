CONSTANT SIZES <- MCSizes
CONSTANT TEXTS <- SomeTexts
CONSTANT MAXLINES = 5
INIT Init
NEXT Next
INVARIANTS OnePromptALine SameUnlessFailed ScriptIsPrefix PromptTells NeverDead
CHECK_DEADLOCK FALSE
