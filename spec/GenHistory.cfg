CONSTANT SIZES <- MCSizes
CONSTANT MAXOPS = 24
CONSTANT VALUES = 1
CONSTANT QUESTIONS <- AllQuestions
CONSTANT FORGET = "nothing"
CONSTANT EMIT = TRUE
INIT Init
NEXT GenNext
CHECK_DEADLOCK FALSE
