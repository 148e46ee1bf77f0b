CONSTANT SIZES <- MCSizes
CONSTANT MASKS = {{1, 4, 7, 10, 13, 16}}
CONSTANT NOISE = 1
CONSTANT START = "calculated"
INIT Init
NEXT Next
INVARIANTS Sound InstancesJustified StepsChange StaleSafe
CHECK_DEADLOCK FALSE
