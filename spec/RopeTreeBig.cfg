SPECIFICATION Spec
INVARIANTS IsFlat Bookkeeping Lookups Small
CONSTRAINT Bounded
CONSTANTS MaxLen = 4
 Options <- AllOptions
 InsMax = 1
 MaxPieces = 4
 Sep <- Newline
CHECK_DEADLOCK FALSE
