SPECIFICATION Spec
INVARIANTS Invisible
CONSTANTS MaxLen = 3
 Inclusive = TRUE
 ReuseExtends = TRUE
 FailuresLook = TRUE
 KeepErrors = TRUE
CHECK_DEADLOCK FALSE
