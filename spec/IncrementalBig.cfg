SPECIFICATION Spec
INVARIANTS Invisible Sound OnePerKey
CONSTANTS MaxLen = 4
 Inclusive = TRUE
 ReuseExtends = TRUE
 FailuresLook = TRUE
 EndIsSeen = TRUE
 KeepErrors = FALSE
CHECK_DEADLOCK FALSE
