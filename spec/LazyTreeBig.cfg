SPECIFICATION Spec
VIEW View
INVARIANTS Refines Ordered Bounds Sized
CONSTANTS N = 3
 P = 4
 Wide = 2
 Shifts = 2
 Loose = FALSE
 Floor = TRUE
 Renew = FALSE
 CatchUp = TRUE
CHECK_DEADLOCK FALSE
