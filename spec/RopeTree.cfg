SPECIFICATION Spec
INVARIANTS IsFlat Bookkeeping Lookups Small
CONSTRAINT Bounded
CONSTANTS MaxLen = 3
 Options <- FewOptions
 InsMax = 1
 MaxPieces = 4
 Sep <- Newline
CHECK_DEADLOCK FALSE
