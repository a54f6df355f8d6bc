SPECIFICATION Spec
VIEW View
INVARIANTS Refines Ordered Bounds Sized
CONSTANTS N = 2
 P = 3
 Wide = 2
 Shifts = 2
 Loose = FALSE
 Floor = FALSE
 Renew = FALSE
 CatchUp = TRUE
CHECK_DEADLOCK FALSE
