SPECIFICATION GSpec
VIEW View
CONSTANTS MaxLen = 3
 Inclusive = TRUE
 ReuseExtends = TRUE
 FailuresLook = TRUE
 KeepErrors = FALSE
CHECK_DEADLOCK FALSE
