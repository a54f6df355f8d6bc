SPECIFICATION GSpec
VIEW View
CONSTANTS N = 3
 P = 3
 Wide = 1
 Shifts = 2
 Loose = FALSE
 Floor = TRUE
 Renew = TRUE
 CatchUp = TRUE
CHECK_DEADLOCK FALSE
