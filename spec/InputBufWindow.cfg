SPECIFICATION Spec
INVARIANTS Refines
CONSTANTS Window = 2
 MaxLen = 5
 Advances = "window"
 Marks = TRUE
 Clears = TRUE
 Early = FALSE
CHECK_DEADLOCK FALSE
