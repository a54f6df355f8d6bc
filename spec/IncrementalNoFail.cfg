SPECIFICATION Spec
INVARIANTS Invisible
CONSTANTS MaxLen = 3
 Inclusive = TRUE
 ReuseExtends = TRUE
 FailuresLook = FALSE
 KeepErrors = FALSE
CHECK_DEADLOCK FALSE
