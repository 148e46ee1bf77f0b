CONSTANT SIZES <- MCSizes
CONSTANT WIDE = TRUE
INIT Init
NEXT Next
INVARIANTS Total Transitive SameIsAlike AnyOrder TextTells
CHECK_DEADLOCK FALSE
