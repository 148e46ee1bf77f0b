CONSTANT SIZES <- MCSizes
CONSTANT K = 7
CONSTANT STALE = FALSE
SPECIFICATION Spec
INVARIANTS KeepsGivens KeepsSolutions UniqueKept SolvesSolvable
PROPERTIES Progress Ends
CHECK_DEADLOCK FALSE
