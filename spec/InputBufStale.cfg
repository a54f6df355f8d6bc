SPECIFICATION Spec
INVARIANTS Refines
CONSTANTS Window = 2
 MaxLen = 5
 Advances = "last"
 Marks = TRUE
 Clears = FALSE
 Early = FALSE
CHECK_DEADLOCK FALSE
