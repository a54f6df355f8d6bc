SPECIFICATION Spec
INVARIANT Correct
CONSTANTS Deep = 6
 Constructs = 1
 MaxLen = 3
 Scheme <- None
CHECK_DEADLOCK FALSE
