CONSTANT SIZES <- MCSizes
CONSTANT MASKS = {{1, 6, 11}, {1, 4, 7, 10}, {1, 4, 7, 10, 13}}
CONSTANT NOISE = 2
CONSTANT START = "calculated"
INIT Init
NEXT Next
INVARIANTS Sound InstancesJustified StepsChange StaleSafe
CHECK_DEADLOCK FALSE
