SPECIFICATION Spec
INVARIANTS Refines Agrees Holds
CONSTANTS Window = 3
 MaxLen = 8
 Advances = "last"
 Marks = TRUE
 Clears = TRUE
 Early = FALSE
CHECK_DEADLOCK FALSE
