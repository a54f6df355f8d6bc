SPECIFICATION Spec
INVARIANT Inv
CONSTANTS Deep = 9
 Constructs = 1
 MaxLen = 3
CHECK_DEADLOCK FALSE
