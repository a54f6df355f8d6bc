SPECIFICATION LSpec
CHECK_DEADLOCK FALSE
POSTCONDITION Done
