CONSTANT SIZES <- MCSizes
CONSTANT WIDE = FALSE
INIT Init
NEXT Next
INVARIANTS Total Transitive SameIsAlike AnyOrder TextTells
CHECK_DEADLOCK FALSE
