CONSTANT SIZES <- MCSizes
CONSTANT MASKS = {{1, 2, 4, 7, 8, 10, 11, 13, 14, 16}}
CONSTANT NOISE = 0
CONSTANT START = "stale"
INIT Init
NEXT Next
INVARIANTS Sound InstancesJustified StepsChange StaleSafe
CHECK_DEADLOCK FALSE
