SPECIFICATION Spec
INVARIANT Correct
CONSTANTS Deep = 6
 Constructs = 2
 MaxLen = 2
 Scheme <- Late1
CHECK_DEADLOCK FALSE
