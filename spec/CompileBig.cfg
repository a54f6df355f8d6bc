SPECIFICATION Spec
INVARIANT Correct
CONSTANTS Deep = 4
 Constructs = 2
 MaxLen = 3
 Scheme <- AllOpts
CHECK_DEADLOCK FALSE
