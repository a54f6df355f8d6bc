SPECIFICATION Spec
INVARIANTS Refines Agrees Holds
CONSTANTS Window = 2
 MaxLen = 5
 Advances = "last"
 Marks = TRUE
 Clears = TRUE
 Early = FALSE
CHECK_DEADLOCK FALSE
