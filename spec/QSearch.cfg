CONSTANT SIZES <- MCSizes
CONSTANT K = 3
INIT Init
NEXT Next
INVARIANTS FoundIsSolution Complete Sound NoLoss CalcKeeps
CHECK_DEADLOCK FALSE
