SPECIFICATION Spec
INVARIANTS Agrees
CONSTANTS Window = 2
 MaxLen = 5
 Advances = "last"
 Marks = FALSE
 Clears = TRUE
 Early = FALSE
CHECK_DEADLOCK FALSE
