SPECIFICATION Spec
INVARIANTS Invisible
CONSTANTS MaxLen = 3
 Inclusive = TRUE
 ReuseExtends = FALSE
 FailuresLook = TRUE
 KeepErrors = FALSE
CHECK_DEADLOCK FALSE
