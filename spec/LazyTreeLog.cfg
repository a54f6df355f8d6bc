SPECIFICATION Spec
VIEW View
INVARIANTS Refines Ordered Bounds Sized
CONSTANTS N = 3
 P = 3
 Wide = 2
 Shifts = 2
 Loose = TRUE
 Floor = TRUE
 Renew = TRUE
 CatchUp = TRUE
CHECK_DEADLOCK FALSE
