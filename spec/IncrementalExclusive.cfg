SPECIFICATION Spec
INVARIANTS Invisible
CONSTANTS MaxLen = 3
 Inclusive = FALSE
 ReuseExtends = TRUE
 FailuresLook = TRUE
 KeepErrors = FALSE
CHECK_DEADLOCK FALSE
