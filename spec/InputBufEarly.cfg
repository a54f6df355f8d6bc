SPECIFICATION Spec
INVARIANTS Refines
CONSTANTS Window = 2
 MaxLen = 5
 Advances = "last"
 Marks = TRUE
 Clears = TRUE
 Early = TRUE
CHECK_DEADLOCK FALSE
