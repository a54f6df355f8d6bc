SPECIFICATION Spec
INVARIANT Inv
CONSTANTS Deep = 5
 Constructs = 2
 MaxLen = 2
CHECK_DEADLOCK FALSE
